"""Decides one property: contracts on the real code first, then the bounded stand-in / replay."""
import os, json, time, shutil, subprocess, sys, threading, traceback
from . import bounded
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def known(pid):
    """(known findings, fixed) of one property"""
    k = []
    try: lines = open(VERIF + '/KNOWN_FINDINGS').read().split('\n')
    except OSError: lines = []
    for l in lines:
        l = l.strip()
        if l.startswith('known: property=%s ' % pid): k.append(l.split(' ', 2)[2])
    return k

def head():
    try: return subprocess.run(['git', '-C', bounded.REPO, 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
    except Exception: return ''

def check(pid, tier, seed, t0):
    bdir = os.path.join(VERIF, 'build', '%s.%d' % (pid, os.getpid()))
    shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir)
    try:
        return _check(pid, tier, seed, t0, bdir)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

def _check(pid, tier, seed, t0, bdir):
    ded = {'r': None}
    def dproc():
        out = os.path.join(bdir, 'ded.json')
        env = dict(os.environ, PYTHONHASHSEED='0')
        lim = 240 if tier == 'quick' else 1500
        try:
            p = subprocess.run([sys.executable, '-m', 'engine.ded', pid, tier, out], cwd=VERIF, env=env, timeout=lim,
                               stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
            ded['err'] = p.stderr[-2000:]
        except subprocess.TimeoutExpired:
            ded['err'] = 'time limit'
        try: ded['r'] = json.load(open(out))
        except Exception: ded['r'] = None
    th = None
    if os.path.exists(VERIF + '/engine/ded.py'):
        th = threading.Thread(target=dproc); th.start()
    exe, err = bounded.build(pid, bdir)
    tb = time.time()
    bad = None
    if exe is None:
        b = dict(ok=True, evals=0, distinct=0, samples=[], fail=None, nproc=0)
        # code that does not build cannot be judged by execution
        print('note: the harness does not build against this tree: %s' % err[:400].replace('\n', ' '))
    else:
        b = bounded.run(exe, seed, 8 if tier == 'quick' else 240, 2 if tier == 'quick' else 6)
    if th: th.join()
    r = ded['r'] or dict(obligations=[], functions=[], assumptions=[], notes=[ded.get('err', 'no contracts')])
    obs = r['obligations']
    open_ = [o for o in obs if o.get('open')]                # not discharged on the unchanged tree either: never an alarm
    refuted = [o for o in obs if not o.get('open') and o['status'] in ('refuted', 'countermodel')]
    undec = [o for o in obs if not o.get('open') and o['status'] not in ('proved', 'refuted', 'countermodel')]
    if (refuted or undec) and b['ok'] and exe is not None:
        # an obligation was not discharged: look harder for a failing input on the real code
        b2 = bounded.run(exe, seed + 17, 45 if tier == 'quick' else 300, 6)
        b2['evals'] += b['evals']; b2['distinct'] += b['distinct']; b2['samples'] = b['samples']; b = b2
    replay = None
    name = None
    if not b['ok']:
        f = b['fail']
        o = (refuted + undec + [None])[0]
        os.makedirs(VERIF + '/replays', exist_ok=True)
        replay = VERIF + '/replays/%s-%s.txt' % (pid, f['case'])
        with open(replay, 'w') as g:
            g.write('property %s\n' % pid)
            if o: g.write('failed obligation: %s\nverifier: %s\n' % (o['name'], o.get('detail', '')))
            g.write('failing input on the real code (%s)\n%s\n%s\n' % (head(), f['desc'], f['msg']))
            g.write('replay: build harness/%s.cpp with the sources of /repo (engine/bounded.py) and run it with --case %s\n' % (pid, f['case']))
            if f['tail']: g.write(f['tail'] + '\n')
        name = 'VIOLATION property=%s replay=%s' % (pid, replay)
        print('%s: %s' % (pid, f['msg']))
        if o: print('failed obligation: %s' % o['name'])
    elif refuted:
        o = refuted[0]
        replay = VERIF + '/replays/%s-obligation.txt' % pid
        with open(replay, 'w') as g:
            for o in refuted:
                g.write('property %s\nfailed obligation: %s\nback end: %s\nverifier output:\n%s\n' % (pid, o['name'], o.get('backend'), o.get('detail', '')))
        name = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay)
        print('failed obligation: %s' % refuted[0]['name'])
    kn = known(pid)
    write_evidence(pid, tier, seed, t0, r, b, obs, refuted, undec + open_, name, exe)
    for k in kn: print('KNOWN-FINDING: property=%s %s' % (pid, k))
    print('%s: %d of %d obligations discharged, %d cases run (%d non-trivial), %.1f s' % (
        pid, len([o for o in obs if o['status'] == 'proved']), len(obs), b['evals'], b['distinct'], time.time() - t0))
    for n in r.get('notes', []): print('note: ' + str(n)[:300])
    if name:
        print(name); return 1
    return 0

def write_evidence(pid, tier, seed, t0, r, b, obs, refuted, undec, name, exe):
    man = json.load(open(VERIF + '/MANIFEST.json'))
    level = [c['level'] for c in man['checks'] if c['property'] == pid]
    level = level[0] if level else 'exploration'
    cov = dict(evaluations=b['evals'], distinct_nontrivial=b['distinct'], samples=b['samples'] or ['none'],
               rule=RULES.get(pid, 'cases drawn at random by harness/%s.cpp from the seed; a case is non-trivial when it reaches the comparison with the oracle' % pid),
               obligations=len(obs), discharged=len([o for o in obs if o['status'] == 'proved']),
               obligations_by_backend=_count(o.get('backend', '-') for o in obs if o['status'] == 'proved'),
               not_discharged=[dict(name=o['name'], status=o['status'], detail=str(o.get('detail', ''))[:300]) for o in refuted + undec],
               obligation_names=[o['name'] for o in obs],
               functions_under_contract=r.get('functions', []), solver_s=round(sum(o.get('time', 0) for o in obs), 2),
               checker_cmd='python3-vt -m engine.ded %s %s OUT.json' % (pid, tier), trusted_base=r.get('trusted', TRUSTED),
               bounded_stand_in=dict(harness='harness/%s.cpp' % pid, built=bool(exe), bound='%d random cases on this run, not counted as proved' % b['evals'], for_=r.get('bounded_for', [])),
               explanation=r.get('explanation', ''))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=r.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=1 if name else 0)
    with open(VERIF + '/evidence/%s.json' % pid, 'w') as f: json.dump(ev, f, indent=1)

def _count(it):
    d = {}
    for x in it: d[x] = d.get(x, 0) + 1
    return d
TRUSTED = ['clang 18 AST of the current sources (engine/cxx.py)', 'the verification condition generator (engine/)', 'z3 5.3, cvc5 1.4']
RULES = {}
