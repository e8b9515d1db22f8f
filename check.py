#!/usr/bin/env python3
"""Driver: check.py <property> <quick|thorough>   run one check
           check.py --replay FILE                re-run one reported violation, narrated
           check.py --setup                      build every harness once
Builds /repo's current sources plus the property's harness, explores all shards in
parallel, replays any failure before reporting it, and writes evidence/<id>.json."""
import sys, os, json, subprocess, hashlib, re, glob, time, shutil, fcntl
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
H = os.path.join(V, 'harness')
sys.path.insert(0, V)
from props import PROPS
NCPU = int(os.environ.get('VERIF_JOBS', '8'))
REDEF = ['read','write','recv','send','poll','select','isatty','tcdrain','tcflush','tcgetattr','tcsetattr','cfsetispeed','cfsetospeed','cfsetspeed',
  'open','open64','close','socket','connect','getaddrinfo','freeaddrinfo','setsockopt','fcntl','ioctl','time','usleep','sleep','nanosleep',
  'malloc','calloc','realloc','reallocarray','free','strdup','strndup','asprintf','vasprintf']
COMMON = ['-g','-w','-std=gnu11','-U_FORTIFY_SOURCE','-fno-builtin-malloc','-fno-builtin-strdup','-fno-builtin-strndup','-fno-builtin-calloc','-fno-builtin-realloc','-fno-builtin-free']
SAN = {'none': ['-O2'],
       'asan': ['-O1','-fno-omit-frame-pointer','-fsanitize=address','-fsanitize=bounds,signed-integer-overflow,shift-exponent,null,integer-divide-by-zero,vla-bound,unreachable,return,bool,float-cast-overflow','-fno-sanitize-recover=undefined'],
       'pat': ['-O0','-ftrivial-auto-var-init=pattern'],
       'zero': ['-O1','-ftrivial-auto-var-init=zero'],
       'msan': ['-O0','-fno-omit-frame-pointer','-fsanitize=memory']}
LINK = {'none': [], 'asan': ['-fsanitize=address,undefined'], 'pat': [], 'zero': [], 'msan': ['-fsanitize=memory']}
CC = {'msan': 'clang'}

class Err(Exception): pass
def die(msg):
    print('ERROR ' + msg); sys.stdout.flush(); sys.exit(2)

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    return r.returncode, r.stdout

def digest(files, extra):
    h = hashlib.sha256(json.dumps(extra).encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f,'rb').read())
    return h.hexdigest()[:24]

def prune():
    """keep the build directory small: drop old object/binary directories"""
    d = os.path.join(B, 'bin')
    try:
        es = sorted((os.path.join(d, x) for x in os.listdir(d)), key=os.path.getmtime)
    except OSError: return
    for e in es[:-160]:
        if time.time() - os.path.getmtime(e) > 600: shutil.rmtree(e, ignore_errors=True)

def compile_many(jobs):
    ps = []
    for cmd in jobs:
        ps.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')))
    for cmd, p in ps:
        o, _ = p.communicate()
        if p.returncode: raise Err('build failed: %s\n%s' % (' '.join(cmd), o[-3000:]))

def version():
    try:
        m = re.search(r'AC_INIT\(\[?[^,]*\]?,\s*\[?([^\],]*)', open(REPO + '/configure.ac').read())
        return m.group(1).strip()
    except Exception: return '0'

def libobjs(san, extra, tool=None):
    """objects of the library (and of one program, its main renamed), system calls redirected"""
    src = sorted(glob.glob(REPO + '/mbus/*.c')); hdr = sorted(glob.glob(REPO + '/mbus/*.h'))
    flags = COMMON + SAN[san] + extra
    redef = []
    for s in REDEF: redef += ["--redefine-sym", "%s=env_%s" % (s, s)]
    if tool:
        redef += ['--redefine-sym', 'exit=env_exit', '--redefine-sym', '_exit=env__exit']
    # the program, and what the programs may share: files of bin/ without a main of their own
    tsrc = [REPO + '/bin/' + tool] + sorted(f for f in glob.glob(REPO + '/bin/*.c') if not re.search(r'\bmain\s*\(', open(f, errors='replace').read())) if tool else []
    key = digest(src + hdr + tsrc + glob.glob(REPO + '/bin/*.h'), [flags, redef, tool, version(), 3])
    d = os.path.join(B, 'bin', 'lib-' + key)
    if os.path.exists(d + '/ok'):
        os.utime(d); return sorted(glob.glob(d + '/*.o')), key
    t = d + '.tmp%d' % os.getpid(); shutil.rmtree(t, ignore_errors=True); os.makedirs(t + '/inc/x')
    v = version()
    open(t + '/inc/config.h','w').write('#define VERSION "%s"\n#define PACKAGE_VERSION "%s"\n#define PACKAGE "libmbus"\n#define PACKAGE_NAME "libmbus"\n' % (v, v))
    jobs = []
    for s in src:
        jobs.append([CC.get(san, 'gcc')] + flags + ['-DHAVE_CONFIG_H','-I', t + '/inc', '-I', t + '/inc/x', '-I', REPO, '-I', REPO + '/mbus', '-c', s, '-o', '%s/%s.o' % (t, os.path.basename(s)[:-2])])
    for s in tsrc:
        jobs.append([CC.get(san, 'gcc')] + flags + ['-Dmain=tool_main','-DHAVE_CONFIG_H','-I', t + '/inc', '-I', t + '/inc/x', '-I', REPO, '-I', REPO + '/mbus', '-c', s, '-o', '%s/tool-%s.o' % (t, os.path.basename(s)[:-2])])
    compile_many(jobs)
    for o in glob.glob(t + '/*.o'):
        rc, out = sh(['objcopy'] + redef + [o])
        if rc: raise Err('objcopy: ' + out)
    open(t + '/ok','w').close()
    try: os.rename(t, d)
    except OSError: shutil.rmtree(t, ignore_errors=True)
    return sorted(glob.glob(d + '/*.o')), key

def build(prog):
    san = prog.get('san','asan'); extra = prog.get('cflags', [])
    objs, k1 = libobjs(san, extra, prog.get('tool'))
    hs = [os.path.join(H, x) for x in prog['src']] + [H + '/mc.c', H + '/env.c'] + [H + '/' + x for x in prog.get('with', [])]
    hdrs = sorted(glob.glob(H + '/*.h'))
    flags = ['-g','-O2' if san != 'asan' else '-O1','-Wall','-Wno-unused','-std=gnu11'] + (SAN['asan'][2:3] if san == 'asan' else SAN['msan'] if san == 'msan' else []) + ['-D%s' % x for x in prog.get('defs', [])]
    key = digest(hs + hdrs, [flags, k1])
    d = os.path.join(B, 'bin', 'h-' + key); exe = d + '/run'
    if os.path.exists(exe): os.utime(d); return exe
    t = d + '.tmp%d' % os.getpid(); shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    compile_many([[CC.get(san, 'gcc')] + flags + ['-I', REPO, '-I', REPO + '/mbus', '-I', H, '-c', s, '-o', '%s/%s.o' % (t, os.path.basename(s)[:-2])] for s in hs])
    rc, out = sh([CC.get(san, 'gcc'), '-o', t + '/run'] + LINK[san] + glob.glob(t + '/*.o') + objs + ['-lm'])
    if rc: raise Err('link failed: ' + out[-3000:])
    try: os.rename(t, d)
    except OSError: shutil.rmtree(t, ignore_errors=True)
    return exe

ENV = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:abort_on_error=0:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=8:malloc_context_size=4:handle_abort=1',
           MSAN_OPTIONS='exitcode=97:abort_on_error=0:allocator_may_return_null=1',
           UBSAN_OPTIONS='exitcode=98:print_stacktrace=0:halt_on_error=1', TZ='UTC', LC_ALL='C')

def sanlog(path):
    txt = ''
    for f in glob.glob(path + '*'):
        try: txt += open(f, errors='replace').read()
        except OSError: pass
    m = re.search(r'SUMMARY: (.*)', txt) or re.search(r'(runtime error: .*)', txt) or re.search(r'ERROR: (.*)', txt)
    return (m.group(1) if m else '')[:400], txt

def read_shm(p):
    import struct
    try: d = open(p,'rb').read()
    except OSError: return None
    idx, beat = struct.unpack_from('<QQ', d, 0)
    sec = d[16:80].split(b'\0')[0].decode('latin1'); n = struct.unpack_from('<I', d, 80)[0]
    inp = d[84:84+min(n,4096)]; note = d[84+4096:84+4096+1024].split(b'\0')[0].decode('latin1')
    return dict(case=idx, section=sec, input=inp.hex().upper(), note=note)

class Shard:
    def __init__(s, exe, w, i, n, tier, seed, known, bitmap, only=None, upto=None):
        s.i, s.n = i, n; s.tag = '%s/s%d%s' % (w, i, '' if only is None and upto is None else ('-r%s' % (only or upto)))
        s.out = s.tag + '.json'; s.shm = s.tag + '.shm'; s.log = s.tag + '.san'
        cmd = [exe, '--shard', '%d/%d' % (i, n), '--tier', tier, '--out', s.out, '--shm', s.shm, '--seed', str(seed)]
        if bitmap: cmd += ['--bitmap', bitmap]
        if known: cmd += ['--known', known]
        if only: cmd += ['--only', str(only)]
        if upto: cmd += ['--upto', str(upto)]
        e = dict(ENV); e['ASAN_OPTIONS'] += ':log_path=' + s.log; e['UBSAN_OPTIONS'] += ':log_path=' + s.log; e['MSAN_OPTIONS'] += ':log_path=' + s.log
        s.err = open(s.tag + '.err', 'w')
        s.p = subprocess.Popen(cmd, stdout=s.err, stderr=s.err, env=e, cwd=w, start_new_session=True)
    def poll(s): return s.p.poll()
    def kill(s):
        try: os.killpg(s.p.pid, 9)
        except OSError: pass
        s.p.wait()
    def result(s):
        rc = s.p.returncode
        if rc in (0, 10):
            r = json.load(open(s.out)); return r
        c = read_shm(s.shm) or {}
        summ, full = sanlog(s.log)
        if rc == -9 or rc == 3 or not c.get('case'):
            raise Err('shard %d ended with %s %s %s' % (s.i, rc, summ, open(s.tag + '.err').read()[-500:]))
        what = {99:'memory error', 97:'use of uninitialised memory', 98:'undefined behaviour', -11:'segmentation fault', -6:'abort', -8:'arithmetic fault', -7:'bus error'}.get(rc, 'ended with status %d' % rc)
        m = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S*?/mbus/\S+|\S*?/bin/\S+)', full)
        where = (' in %s (%s)' % m[0]) if m else ''
        return dict(status='fail', msg='%s while processing this case: %s%s' % (what, summ, where), **c)

def run_prog(pid, pi, prog, tier, seed, known, deadline):
    exe = build(prog)
    w = os.path.join(B, 'run', '%s-%d-%d' % (pid, pi, os.getpid())); shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    n = prog.get('shards', NCPU)
    bitmap = w + '/bitmap'
    try:
        sh_ = [Shard(exe, w, i, n, tier, seed, known, bitmap) for i in range(n)]
        fail = None
        live = list(sh_)
        while live and not fail:
            time.sleep(0.02)
            for s in list(live):
                if s.poll() is not None:
                    live.remove(s)
                    if s.p.returncode != 0: fail = s; break
            if time.time() > deadline:
                for s in live: s.kill()
                raise Err('time limit reached')
        for s in live: s.kill()
        if fail:
            r = fail.result()
            # replay before reporting: the case alone, then the shard's prefix
            r2 = None; mode = None
            for m in ('only', 'upto'):
                t = Shard(exe, w, fail.i, n, tier, seed, known, None, **{m: r['case']})
                while t.poll() is None:
                    if time.time() > deadline + 60: t.kill(); raise Err('time limit in replay')
                    time.sleep(0.01)
                if t.p.returncode != 0:
                    r2 = t.result(); mode = m; break
            if r2 is None: raise Err('a failure did not reproduce: case %s %s: %s' % (r['case'], r['section'], r['msg']))
            return dict(fail=r2, mode=mode, shard=fail.i, nshards=n)
        return dict(results=[s.result() for s in sh_])
    finally:
        shutil.rmtree(w, ignore_errors=True)

def known_keys(pid):
    ks = []; p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+)\s*(.*)', l)
            if m and m.group(1) == pid: ks.append((m.group(2), m.group(3).strip()))
    return ks

def check(pid, tier):
    t0 = time.time(); P = PROPS[pid]; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(B + '/run', exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True); os.makedirs(B + '/replays', exist_ok=True)
    prune()
    kk = known_keys(pid); known = None
    if kk:
        known = B + '/run/known-%s-%d' % (pid, os.getpid()); open(known,'w').write('\n'.join(k for k, _ in kk) + '\n')
    cov = dict(evaluations=0, distinct_nontrivial=0, states=0, transitions=0, traces_validated_against_impl=0, samples=[], sections={}, outcomes={})
    ev = dict(property=pid, tier=tier, seed=seed, level=P['level'], coverage=cov, assumptions=P.get('assume', []), wall_s=0.0, violations=0)
    deadline = t0 + (860 if tier == 'quick' else 3 * 3600)
    if tier == 'thorough' and os.environ.get('VERIF_LIMIT'): deadline = t0 + int(os.environ['VERIF_LIMIT'])
    hits = {}; vio = None; depth = {'quick': 'thorough', 'thorough': 'deep'}[tier] if P.get('deep') else tier
    for pi, prog in enumerate(P['progs']):
        if tier == 'quick' and prog.get('thorough_only'): continue
        try: r = run_prog(pid, pi, prog, depth, seed, known, deadline)
        except Err as e:
            if os.environ.get('VERIF_TRACE'): raise
            die('%s: %s' % (pid, e))
        if 'fail' in r: vio = (pi, r); break
        for x in r['results']:
            cov['evaluations'] += x['evaluations']; cov['distinct_nontrivial'] += x['distinct']; cov['states'] += x['states']
            cov['transitions'] += x['transitions']; cov['traces_validated_against_impl'] += x['traces']
            for k, v in x['outcomes'].items(): cov['outcomes'][k] = cov['outcomes'].get(k, 0) + v
            for k, v in x['sections'].items(): cov['sections'][k] = cov['sections'].get(k, 0) + v
            for k, v in x['known'].items(): hits[k] = hits.get(k, 0) + v
        ss = [x['samples'] for x in r['results']]
        k = 0
        while any(ss) and k < 24:
            for l in ss:
                if l and k < 24:
                    cov['samples'].append((prog.get('label', prog['src'][0]) + ' ' + l.pop(0))[:400]); k += 1
    cov['rule'] = P['rule']; cov['exhaustive'] = bool(P.get('exhaustive', True)); cov['bounds'] = P.get('bounds', {}).get(tier, P.get('bounds', {}).get('quick', ''))
    if P['level'] == 'model_checking' and not vio:
        pass
    ev['wall_s'] = round(time.time() - t0, 2)
    rc = 0
    if vio:
        pi, r = vio; f = r['fail']; ev['violations'] = 1; ev['violation'] = f['msg']
        rp = os.path.join(B, 'replays', '%s-%s.json' % (pid, hashlib.sha1((f['msg'] + str(f.get('case'))).encode()).hexdigest()[:10]))
        json.dump(dict(property=pid, prog=pi, tier=depth, seed=seed, mode=r['mode'], shard=r['shard'], nshards=r['nshards'], case=f['case'], section=f['section'],
                       message=f['msg'], input=f.get('input',''), note=f.get('note',''), choices=f.get('choices',''),
                       rerun='python3 /verif/check.py --replay ' + rp), open(rp,'w'), indent=1)
        print('%s %s case %s: %s' % (pid, f['section'], f['case'], f['msg']))
        if f.get('note'): print('  case: ' + f['note'])
        if f.get('input'): print('  input: ' + f['input'][:600])
        if f.get('choices'): print('  choices: ' + f['choices'][:300])
        print('VIOLATION property=%s replay=%s' % (pid, rp)); rc = 1
    else:
        for k, d in kk:
            if hits.get(k): print('KNOWN-FINDING: property=%s %s' % (pid, d or k))
        print('%s %s: held on %d executions (%d distinct non-trivial), %d states, %d transitions, %d traces, %.1f s' % (pid, tier, cov['evaluations'], cov['distinct_nontrivial'], cov['states'], cov['transitions'], cov['traces_validated_against_impl'], ev['wall_s']))
    if hits: ev['known_findings'] = hits
    tmp = os.path.join(V, 'evidence', '.%s.%d' % (pid, os.getpid()))
    json.dump(ev, open(tmp,'w'), indent=1); os.rename(tmp, os.path.join(V, 'evidence', pid + '.json'))
    if known: os.unlink(known)
    return rc

def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        from concurrent.futures import ThreadPoolExecutor
        os.makedirs(B + '/bin', exist_ok=True)
        seen = {}
        for p in PROPS.values():
            for g in p['progs']: seen.setdefault((g.get('san','asan'), g.get('tool'), tuple(g.get('cflags', []))), []).append(g)
        def one(gs):
            for g in gs: build(g)
        with ThreadPoolExecutor(4) as ex: list(ex.map(one, seen.values()))
        print('built %d harnesses' % sum(len(v) for v in seen.values())); return 0
    if a and a[0] == '--replay':
        r = json.load(open(a[1])); prog = PROPS[r['property']]['progs'][r['prog']]
        exe = build(prog); cmd = [exe, '--shard', '%d/%d' % (r['shard'], r['nshards']), '--tier', r['tier'], '--seed', str(r['seed']), '--' + r['mode'], str(r['case'])]
        print(json.dumps(r, indent=1)); print(' '.join(cmd)); sys.stdout.flush()
        e = dict(ENV); e['MC_KEEP_STDIO'] = '1'
        rc = subprocess.run(cmd, env=e).returncode
        print('replay ended with status %d (0 = did not fail)' % rc); return 1 if rc else 0
    if len(a) < 1 or a[0] not in PROPS: die('usage: check.py <property> <quick|thorough>')
    return check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'))
if __name__ == '__main__': sys.exit(main())
