#!/usr/bin/env python3
# Writes /verif/seeded/<id>/ from an edit and a demonstration and confirms it: the change builds, passes the stable
# tests, the demonstration passes without and fails with it; then runs the property's quick check against the change.
import json, os, shutil, subprocess, sys, tempfile
V = '/verif'; R = '/repo'
SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -g -w -std=gnu11 %s -DHAVE_CONFIG_H -I_build -I_build/mbus -I. -Imbus -I"$d" -o "$t/demo" "$d/demo.c" mbus/*.c -lm -lpthread -lutil || exit 2
cd "$t" && timeout 120 ./demo
'''
TSH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -g -w -std=gnu11 -DHAVE_CONFIG_H -I_build -I_build/mbus -I. -Imbus -o "$t/tool" bin/%s mbus/*.c -lm || exit 2
gcc -g -w -std=gnu11 -I"$d" -o "$t/demo" "$d/demo.c" -lpthread -lutil || exit 2
cd "$t" && timeout 120 ./demo "$t/tool"
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(id, prop, edits, needs, breaks, demo, head='fb.h', cflags='', tool=None, check=True):
    d = '%s/seeded/%s' % (V, id); assert sh('git -C %s status --porcelain' % R).stdout == '', 'dirty repo'
    try:
        for f, a, b in edits:
            p = R + '/' + f; s = open(p, encoding='latin-1', newline='').read()
            if s.count(a) != 1: print(id, 'EDIT matches %d times: %s' % (s.count(a), a[:60])); return False
            open(p, 'w', encoding='latin-1', newline='').write(s.replace(a, b))
        patch = subprocess.run('git -C %s diff' % R, shell=True, stdout=subprocess.PIPE).stdout
        os.makedirs(d, exist_ok=True); open(d + '/patch.diff', 'wb').write(patch); open(d + '/demo.c', 'w').write(demo.lstrip('\n'))
        if head: shutil.copy('%s/tools/seedlib/%s' % (V, head), d)
        open(d + '/demo.sh', 'w').write(TSH % tool if tool else SH % cflags); os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        x = sh('bash %s/tools/rt.sh' % V).stdout.strip(); bad = sh('bash %s/demo.sh' % d, cwd=R); 
        c = None
        if check: c = sh('timeout 900 python3 check.py %s' % prop, cwd=V)
    finally: sh('git -C %s checkout -- .' % R)
    b = sh('bash /opt/vp/build.sh'); good = sh('bash %s/demo.sh' % d, cwd=R)
    ok = 'stable ok' in x and bad.returncode not in (0, 2, 124) and good.returncode == 0
    print(id, 'OK' if ok else 'BAD', '| tests:', x, '| patched', bad.returncode, bad.stdout.strip()[-160:].replace('\n', ' / '), '| clean', good.returncode, good.stdout.strip()[-160:].replace('\n',' / ') if good.returncode else '')
    if c is not None: print('   check %s: %s' % (prop, 'CAUGHT' if c.returncode == 1 and 'VIOLATION property=' + prop in c.stdout else 'MISSED rc=%d' % c.returncode), c.stdout.strip()[-260:].replace('\n', ' / '))
    return ok
def run(glb):
    for s in glb: make(**s)
