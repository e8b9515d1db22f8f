#!/usr/bin/env python3
"""write harness/frames.h: the telegrams of real meters that come with the library's tests (input material only)"""
import glob,os,re
out=['/* telegrams of real meters, from the test data of the library (tools/mkframes.py) */','static const struct { const char *name; int n; const unsigned char *b; } FRAMES[] = {']
n=0
for d in ('test-frames','error-frames','unsupported-frames'):
    for f in sorted(glob.glob('/repo/test/%s/*.hex'%d)):
        t=open(f,errors='replace').read(); h=re.findall(r'\b[0-9A-Fa-f]{2}\b',t)
        b=[int(x,16) for x in h]
        if not b or len(b)>2000: continue
        out.append('{ "%s", %d, (const unsigned char *)"%s" },'%(os.path.basename(f)[:-4],len(b),''.join('\\x%02X'%x for x in b))); n+=1
out.append('};'); out.append('#define N_FRAMES %d'%n)
open('/verif/harness/frames.h','w').write('\n'.join(out)+'\n')
