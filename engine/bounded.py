"""Builds the real code with a harness and runs it: replay of failed obligations, and
the bounded stand-in for obligations that are out of the verifier's reach."""
import os, subprocess, sys, time, glob, shutil, hashlib, struct
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIGRID_REPO', '/repo')
FLAGS = ('-std=gnu++17 -O1 -g1 -w -fsanitize=address,undefined -fno-sanitize-recover=all '
         '-D_GLIBCXX_SANITIZE_VECTOR=1').split()

def sources():
    return sorted(glob.glob(REPO + '/cpp/*.cpp') + glob.glob(REPO + '/utils/*.cpp'))

def build(pid, bdir):
    """returns (executable, error text)"""
    os.makedirs(bdir, exist_ok=True)
    inc = ['-I' + REPO + '/cpp', '-I' + REPO + '/utils', '-I' + VERIF + '/harness']
    uni = os.path.join(bdir, 'lib_all.cpp')
    with open(uni, 'w') as f:
        for s in sources():
            f.write('#include "%s"\n' % s)
    ho, lo, exe = (os.path.join(bdir, x) for x in (pid + '.o', 'lib.o', pid))
    p1 = subprocess.Popen(['g++'] + FLAGS + inc + ['-c', uni, '-o', lo], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    p2 = subprocess.Popen(['g++'] + FLAGS + inc + ['-c', '%s/harness/%s.cpp' % (VERIF, pid), '-o', ho], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    e1, e2 = p1.communicate()[1], p2.communicate()[1]
    if p2.returncode:
        return None, e2
    objs = [lo]
    if p1.returncode:  # the sources do not fit in one translation unit: compile them one by one
        objs, ps = [], []
        for s in sources():
            o = os.path.join(bdir, os.path.basename(s) + '.o'); objs.append(o)
            ps.append(subprocess.Popen(['g++'] + FLAGS + inc + ['-c', s, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
        for p in ps:
            e = p.communicate()[1]
            if p.returncode: return None, e
    p = subprocess.run(['g++'] + FLAGS + [ho] + objs + ['-llapack', '-lblas', '-o', exe], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if p.returncode: return None, p.stderr
    return exe, None

def _parse(path):
    r = dict(evals=0, distinct=0, samples=[], case=None, msg=None, desc=None)
    try: lines = open(path, errors='replace').read().split('\n')
    except OSError: lines = []
    for l in lines:
        if l.startswith('DONE '): r['evals'], r['distinct'] = map(int, l.split()[1:3])
        elif l.startswith('SAMPLE '): r['samples'].append(l[7:])
        elif l.startswith('FAILCASE '): r['case'] = int(l.split()[1])
        elif l.startswith('MSG '): r['msg'] = l[4:]
        elif l.startswith('CASE '): r['desc'] = l[5:]
    return r

def _exec(exe, args, out, timeout):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='print_stacktrace=0:exitcode=77')
    err = out + '.err'
    with open(err, 'wb') as e:
        try:
            rc = subprocess.run([exe] + args + ['--out', out], stdout=subprocess.DEVNULL, stderr=e, env=env,
                                timeout=timeout, cwd=os.path.dirname(exe)).returncode
        except subprocess.TimeoutExpired:
            rc = None
    tail = b''
    with open(err, 'rb') as e:
        d = e.read()
        i = max(d.rfind(b'ERROR: AddressSanitizer'), d.rfind(b'runtime error'))
        if i >= 0: tail = d[max(0, i - 200):i + 1500]
    os.remove(err)
    return rc, tail.decode(errors='replace')

def run(exe, seed, seconds, nproc=1, cases=None):
    """runs the harness; returns dict(ok, evals, distinct, samples, fail)"""
    bdir = os.path.dirname(exe)
    procs = []
    from concurrent.futures import ThreadPoolExecutor
    def one(k):
        out = os.path.join(bdir, 'out%d' % k); prog = os.path.join(bdir, 'prog%d' % k)
        rc, tail = _exec(exe, ['--seed', str(seed * 1000 + k), '--time', str(seconds), '--progress', prog], out, seconds + 90)
        r = _parse(out); r['rc'] = rc; r['tail'] = tail
        if rc not in (0, 42):
            try: r['case'] = struct.unpack('<Q', open(prog, 'rb').read(8))[0]
            except Exception: r['case'] = None
            r['msg'] = 'crash: ' + tail[:300].replace('\n', ' ')
        return r
    with ThreadPoolExecutor(nproc) as ex: rs = list(ex.map(one, range(nproc)))
    res = dict(ok=True, evals=sum(r['evals'] for r in rs), distinct=sum(r['distinct'] for r in rs),
               samples=[s for r in rs for s in r['samples']][:3], fail=None, nproc=nproc)
    for r in rs:
        if r['rc'] == 0: continue
        if r['case'] is None: continue  # killed without a trace: nothing can be concluded
        # confirm by running that case alone
        out = os.path.join(bdir, 'confirm')
        rc, tail = _exec(exe, ['--case', str(r['case'])], out, 120)
        if rc == 0 or rc is None: continue
        c = _parse(out)
        res['ok'] = False
        res['fail'] = dict(case=r['case'], msg=c['msg'] or r['msg'] or tail[:300], desc=c['desc'] or r['desc'], rc=rc, tail=tail)
        break
    return res
