#!/usr/bin/env python3
# which lines a planted change removes, and whether they are original ones
import glob, re, subprocess, sys
base = subprocess.check_output(['git','-C','/repo','rev-list','--max-parents=0','HEAD'], text=True).split()[0]
for d in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    t = open(d, encoding='latin-1').read(); f = None; own = orig = 0; ln = 0
    for l in t.split('\n'):
        m = re.match(r'--- a/(.*)', l)
        if m: f = m.group(1).strip(); continue
        m = re.match(r'@@ -(\d+)', l)
        if m: ln = int(m.group(1)); continue
        if l.startswith('+++') or l.startswith('diff') or l.startswith('index'): continue
        if l.startswith('-'):
            b = subprocess.check_output(['git','-C','/repo','blame','-s','--abbrev=40','-L','%d,%d' % (ln, ln),'HEAD','--',f], text=True, errors='replace').lstrip('^')
            if b[:30] == base[:30]: orig += 1
            else: own += 1
        if l.startswith('-') or l.startswith(' '): ln += 1
    print(d.split('/')[-2], 'removes original', orig, 'own', own, '' if orig else '<<<')
