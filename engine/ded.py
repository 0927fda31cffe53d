"""Runs the contracts of one property: python3-vt -m engine.ded PID TIER OUT.json [unit]"""
import sys, os, json, time, traceback, importlib, signal, multiprocessing
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from . import cxx
import z3
from .val import *
from .cxx import T, Unsupported
from .sym import *
from .exe import Exec
from .solve import Solver
sys.setrecursionlimit(20000)

UNITS = []
def unit(pids, name, fns=(), tier='quick', ms=6000):
    def deco(f):
        f.info = dict(pids=pids.split(), name=name, fns=list(fns), tier=tier, ms=ms)
        UNITS.append(f); return f
    return deco

class Unit:
    """symbolic inputs, calls of the real functions, and the conditions to prove"""
    def __init__(self, prog, info):
        self.p, self.info = prog, info
        self.solver = Solver()
        self.E = Exec(prog, self.solver)
        self.st = St({}, [])
        self.k = 0
    # inputs
    def int(self, n='n'): return self.E.fint(n)
    def real(self, n='x'): return self.E.freal(n)
    def bool(self, n='b'): return self.E.fbool(n)
    def var(self, v, name='v'):
        """a variable of the caller: pointer to it"""
        self.k += 1
        r = ('u', name, self.k); self.st.mem[r] = v
        return Ptr(LV(r))
    def array(self, n, et='real', name='a', ro=True):
        """an array of the caller with unknown contents"""
        t = T('real') if et == 'real' else T('int', (True, 32)) if et == 'int' else et
        self.k += 1
        r = ('ro' if ro else 'u', name, self.k)
        nm = self.E.fresh_name(name)
        if not isz(n) and n <= 24: node = AList([self.E.mk(t, '%s@%d' % (nm, i)) for i in range(n)])
        else: node = AUF(self.E.mk, t, nm, ())
        self.st.mem[r] = Arr(n, node, t)
        return Ptr(LV(r), 0)
    def values(self, l, et='real', name='a', ro=True):
        t = T('real') if et == 'real' else T('int', (True, 32)) if et == 'int' else et
        self.k += 1
        r = ('ro' if ro else 'u', name, self.k)
        self.st.mem[r] = Arr(len(l), AList(list(l)), t)
        return Ptr(LV(r), 0)
    def assume(self, f): self.E.assume(self.st, f, 'pre')
    def get(self, p, *path):
        """value behind a pointer of the caller"""
        ch, self.E.checks = self.E.checks, False
        try:
            lv = p.lv if isinstance(p, Ptr) and p.idx is None else p.at(0) if isinstance(p, Ptr) else p
            for x in path: lv = lv.f(x) if isinstance(x, str) else lv.i(x)
            return self.E.read(self.st, lv)
        finally: self.E.checks = ch
    def elem(self, p, i):
        """element i of the array a pointer designates (no bounds obligation)"""
        a = self.E.read(self.st, p.lv)
        return a.get(add(p.idx or 0, i))
    def arr(self, p): return self.E.read(self.st, p.lv)
    # calls
    def fn(self, q, nparams=None):
        c = [f for f in self.p.fns.get(q, []) if f['_body'] is not None and (nparams is None or len(f['_params']) == nparams)]
        if not c: raise Oops('no function ' + q)
        return c[0]
    def call(self, q, *args):
        return self.E.call(self.st, self.fn(q), None, list(args))
    def method(self, q, this, *args):
        """member function on the object behind a pointer"""
        r = self.E.call(self.st, self.fn(q), self.E.resolve(self.st, this.lv if isinstance(this, Ptr) else this), list(args))
        return self.E.read(self.st, r) if isinstance(r, LV) else r
    def new(self, cls, *args):
        """self = Class_new(&self, ...): pointer to the pointer, as the C interface wants it"""
        p = self.var(UNINIT, 'self')
        self.call(cls + '_new', p, *args)
        return p
    def object(self, cls, *args, name='obj'):
        """an object of the class made by its constructor"""
        self.k += 1
        r = ('u', name, self.k)
        self.st.mem[r] = self.E.default(T('rec', cls))
        c = [f for f in self.p.fns.get(cls + '::' + cls, []) if f['_body'] is not None and len(f['_params']) == len(args)]
        if not c: raise Oops('constructor of ' + cls)
        self.E.call(self.st, c[0], LV(r), list(args))
        return Ptr(LV(r))
    def set(self, p, *path_v):
        lv = p.lv
        for x in path_v[:-1]: lv = lv.f(x) if isinstance(x, str) else lv.i(x)
        self.E.write(self.st, lv, path_v[-1])
    def this(self, p):
        """the object behind a handle"""
        v = self.E.read(self.st, p.lv)
        return v
    def blank(self, cls, name='obj', live=True):
        """an object in an arbitrary state"""
        self.k += 1
        r = ('u', name, self.k)
        self.st.mem[r] = self.E.mk(T('rec', cls), self.E.fresh_name(name))
        return Ptr(LV(r))
    # conditions
    def prove(self, name, goal, st=None):
        self.E.oblige(st or self.st, '=' + name, goal)
    def lemma(self, name, goal):
        """proved, then used"""
        self.prove('lemma: ' + name, goal)
        self.E.assume(self.st, goal, 'lemma')
    def div(self, a, b):
        """quotient and remainder as the code computes them"""
        ch, self.E.checks = self.E.checks, False
        try: return self.E.div(self.st, a, b, None)
        finally: self.E.checks = ch
    def radix(self, flat, d, ext):
        """lemmas: the digits of flat = (((d0)*e1 + d1)*e2 + ...) are the d_i, 0 <= d_i < e_i"""
        n = len(d)
        # flat = h_i * P_i + l_i with h_i the leading digits, P_i the product of the extents that follow, l_i < P_i
        for i in range(n - 1, -1, -1):
            h = 0
            for j in range(i + 1): h = add(mul(h, ext[j]), d[j])
            P = 1; l = 0
            for j in range(i + 1, n): P = mul(P, ext[j]); l = add(mul(l, ext[j]), d[j])
            self.lemma('the trailing %d digits are below the product of their extents' % (n - 1 - i), land(le(0, l), lt(l, P), lt(0, P), le(0, h)))
            for PP in products([ext[j] for j in range(i + 1, n)]):
                self.lemma('leading and trailing digits of the flat index', eq(flat, add(mul(h, PP), l)))
                q, r = self.div(flat, PP)
                self.lemma('quotient by the product of the trailing extents', eq(q, h))
                q2, r2 = self.div(q, ext[i])
                hp = 0
                for j in range(i): hp = add(mul(hp, ext[j]), d[j])
                self.lemma('digit %d' % i, land(eq(r2, d[i]), eq(q2, hp)))
    def digits(self, f, ext):
        """lemmas: the digits (f / P_i) % e_i of 0 <= f < product are a row-major expansion of f"""
        n = len(ext)
        # f / P_i is the repeated quotient
        q = f
        qs = {n - 1: f}
        rep = f
        reps = [f]
        for i in range(n - 1, 0, -1):
            rep, _ = self.div(rep, ext[i]); reps.append(rep)
        # reps[k] = ((f / e_{n-1}) / e_{n-2}) ...
        for k in range(1, n):
            P = None
            for PP in products([ext[j] for j in range(n - k, n)]):
                q, r = self.div(f, PP)
                self.lemma('iterated quotient %d' % k, eq(q, reps[k]))
        for k in range(n): self.lemma('quotients are not negative', le(0, reps[k]))
        top = 1
        for i in range(n):
            # reps[n-1-i] < e_0 ... e_i
            pass
        P = 1
        for i in range(n): P = mul(P, ext[i])
        for k in range(1, n):
            Pk = 1
            for i in range(n - k): Pk = mul(Pk, ext[i])
            self.lemma('quotient %d is below the product of the leading extents' % k, lt(reps[k], Pk))
    def hint(self, *ts):
        for t in ts: self.E.hints.append(t)
    def no_leak(self, name='everything allocated is freed'):
        for r in self.E.heap:
            l = self.st.mem.get(('live', r))
            if l is None: continue
            self.prove(name, nt(l))

def products(l):
    """the ways the code may have multiplied the extents together"""
    if not l: return [1]
    a = 1
    for x in l: a = mul(a, x)
    b = 1
    for x in reversed(l): b = mul(b, x)
    return [a] if same(a, b) else [a, b]
class TimeUp(Exception): pass
def run_unit(f, prog, lim, only=None):
    """obligations of one unit, discharged"""
    info = f.info
    t0 = time.time()
    U = Unit(prog, info)
    r = dict(unit=info['name'], obligations=[], functions=[], assumptions=[], notes=[], status='ok')
    def alarm(*a): raise TimeUp()
    signal.signal(signal.SIGALRM, alarm); signal.alarm(int(lim))
    try:
        try:
            f(U)
        except Dead:
            r['notes'].append('no path through the unit'); r['status'] = 'dead'
        except TimeUp: raise
        except (Unsupported, NullDeref, RecursionError, KeyError, AttributeError, TypeError, IndexError, z3.Z3Exception, AssertionError, ValueError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            r['notes'].append('outside the verifier: %s (%s:%d, in %s)' % (str(e)[:200] or type(e).__name__, os.path.basename(tb.filename), tb.lineno, U.E.fnstack[-1] if U.E.fnstack else '-'))
            r['status'] = 'unsupported'
            if os.environ.get('DEDTRACE'): traceback.print_exc()
        E = U.E
        r['gen'] = round(time.time() - t0, 2)
        names = {}
        todo = []
        for o in E.obs:
            nm = o.name[1:] if o.name.startswith('=') else 'safety: ' + o.name
            names[nm] = names.get(nm, 0) + 1
            todo.append((nm, o))
        # identical obligations are merged
        seen = {}
        for nm, o in todo:
            key = (nm, tz(o.goal).get_id(), tuple(tz(h).get_id() for h in o.hyps))
            if key in seen: continue
            seen[key] = 1
            if only and only not in nm: continue
            res = U.solver.prove(E, o, info['ms'])
            res['name'] = info['name'] + ': ' + nm
            if os.environ.get('DEDV') and res['status'] != 'proved': print('   goal', str(o.goal)[:1500], '\n   hyps', str(o.hyps)[:1500])
            r['obligations'].append(res)
        # vacuity: the assumptions are consistent
        if r['status'] == 'ok' and not only:
            gs = U.solver.ground(E, [tz(h) for h in U.st.pc] + [fa.f for fa in E.facts if fa.kind == 'pre' and not fa.vars], len(E.facts), 2, 600)
            c, _ = U.solver.check([tz(h) for h in U.st.pc] + gs, 3000)
            if c == z3.unsat: r['status'] = 'vacuous'; r['notes'].append('the assumptions of the unit are contradictory')
        signal.alarm(0)
    except TimeUp:
        r['status'] = 'time limit'; r['notes'].append('time limit of the unit')
    finally: signal.alarm(0)
    r['functions'] = sorted(U.E.used)
    r['assumptions'] = sorted(U.E.assumed)
    r['notes'] += ['%s: %s' % (info['name'], n) for n in sorted(set(U.E.notes))]
    r['summarised_loops'] = getattr(U.E, 'summarized', 0)
    r['time'] = round(time.time() - t0, 2)
    r['queries'] = U.solver.nq
    return r

def load_units():
    d = VERIF + '/contracts'
    for fn in sorted(os.listdir(d)):
        if fn.endswith('.py') and not fn.startswith('_'): importlib.import_module('contracts.' + fn[:-3])
def _work(k):
    f, lim = _JOBS[k]
    try: return run_unit(f, _PROG, lim)
    except Exception as e: return dict(unit=f.info['name'], obligations=[], functions=[], assumptions=[], notes=['verifier error %s' % str(e)[:200]], status='error', time=0, queries=0, summarised_loops=0)

def main():
    global _JOBS, _PROG
    pid, tier, out = sys.argv[1:4]
    only = sys.argv[4] if len(sys.argv) > 4 else None
    wdir = os.path.dirname(os.path.abspath(out))
    load_units()
    jobs = [f for f in UNITS if pid in f.info['pids'] and (tier == 'thorough' or f.info['tier'] == 'quick')]
    if only: jobs = [f for f in jobs if only in f.info['name']]
    try: _PROG = cxx.load(os.environ.get('SIGRID', '/repo'), wdir)
    except Exception as e:
        json.dump(dict(obligations=[], functions=[], assumptions=[], notes=['the sources could not be read: %s' % str(e)[:300]], expected_all=False), open(out, 'w')); return
    lim = 150 if tier == 'quick' else 900
    _JOBS = [(f, lim) for f in jobs]
    try: exp = json.load(open(VERIF + '/contracts/expected.json'))
    except OSError: exp = {}
    if only or not jobs: res = [_work(k) for k in range(len(jobs))]
    else:
        with multiprocessing.get_context('fork').Pool(min(6, len(jobs))) as pool: res = pool.map(_work, range(len(jobs)), chunksize=1)
    # obligations that failed are tried once more, on their own and with more time
    again = [k for k, r in enumerate(res) if any(o['status'] != 'proved' and o['name'] not in exp.get(r['unit'], {}).get('open', []) for o in r['obligations'])
             or r['status'] != exp.get(r['unit'], {}).get('status', 'ok')] if not only and os.environ.get('DEDRETRY', '1') == '1' else []
    if again and len(again) <= 3:
        for k in again:
            jobs[k].info['ms'] *= 2
        with multiprocessing.get_context('fork').Pool(len(again)) as pool:
            for k, r in zip(again, pool.map(_work, again, chunksize=1)): 
                if r['status'] == 'ok' or res[k]['status'] != 'ok': res[k] = r
    obs, fns, ass, notes = [], set(), set(), []
    for r in res:
        e = exp.get(r['unit'], {})
        open_ = set(e.get('open', []))
        for o in r['obligations']:
            o['open'] = o['name'] in open_ and o['status'] != 'proved'
            obs.append(o)
        if r['status'] != 'ok':
            notes.append('%s: %s' % (r['unit'], '; '.join(r['notes'])))
            if r['status'] != e.get('status', 'ok'):
                obs.append(dict(name=r['unit'] + ': ' + r['status'], status='unknown', backend='-', time=0, detail='; '.join(r['notes']), open=False))
        else: notes += r['notes']
        fns |= set(r['functions']); ass |= set(r['assumptions'])
    json.dump(dict(obligations=obs, functions=sorted(fns), assumptions=sorted(ass), notes=notes,
                   units=[dict(unit=r['unit'], status=r['status'], time=r['time'], queries=r['queries'], obligations=len(r['obligations']), loops=r['summarised_loops']) for r in res]), open(out, 'w'), indent=1)
if __name__ == '__main__':
    sys.modules['engine.ded'] = sys.modules['__main__']
    main()
