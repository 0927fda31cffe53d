"""Discharging obligations: instantiates the schematic facts on the terms of the query and asks the solvers."""
import z3, time, itertools, subprocess, os
from .val import isz, tz, norm, land, nt
from .sym import symbols

def apps(f, out, seen):
    """uninterpreted applications with arguments"""
    todo = [f]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen: continue
        seen[i] = x
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and x.num_args(): out.append(x)
            todo.extend(x.children())

def offset(t):
    """t = v + c for a constant symbol v: (v, c)"""
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: return t, 0
    if z3.is_add(t) and t.num_args() == 2:
        a, b = t.arg(0), t.arg(1)
        if z3.is_int_value(a): a, b = b, a
        if z3.is_int_value(b) and z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED: return a, b.as_long()
    if z3.is_sub(t) and t.num_args() == 2 and z3.is_int_value(t.arg(1)):
        a = t.arg(0)
        if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED: return a, -t.arg(1).as_long()
    return None

class Plan:
    """how to instantiate one schematic fact"""
    def __init__(self, fact):
        vs = {v.get_id(): v for v in fact.vars}
        names = [v.decl().name() for v in fact.vars]
        fa = []
        apps(fact.f, fa, {})
        pats = []
        for x in fa:
            bind, ok = [], False
            for k in range(x.num_args()):
                o = offset(x.arg(k))
                if o is not None and o[0].get_id() in vs: bind.append((k, o[0].get_id(), o[1])); ok = True
                else:
                    sy = symbols(x.arg(k))
                    if any(n in sy for n in names): bind.append((k, None, 0))
            if ok: pats.append((x, bind, frozenset(b[1] for b in bind if b[1] is not None)))
        main = pats
        if fact.trig is not None: main = [p for p in pats if p[0].decl().name() in fact.trig] or pats
        best = max([len(p[2]) for p in main], default=0)
        self.main = [p for p in main if len(p[2]) == best] if best else []
        if best < len(vs) and fact.trig is None:
            # patterns that cover different variables are all tried
            self.main = [p for p in main if not any(p[2] < q[2] for q in main)]
        self.part = {i: [] for i in vs}
        for x, bind, cov in pats:
            for k, v, off in bind:
                if v is not None and len(cov) == 1: self.part[v].append((x, k, off))
        self.vs = vs

class Solver:
    def __init__(self):
        self.qcache = {}
        self.nq, self.tq = 0, 0.0
        self.log = []
        self.sk = {}
    # ---- instantiation
    def ground(self, E, forms, nfacts, rounds, cap=1500, extra=()):
        """facts relevant for the formulas, instantiated"""
        facts = E.facts
        syms = set()
        out, seen = [], {}
        ap = []
        for f in forms:
            syms |= symbols(f); apps(f, ap, seen)
        loops = set(E.loopinfo)
        here = syms & loops
        hints = {}
        for t in list(E.hints) + list(extra):
            t = tz(t)
            if (symbols(t) & loops) <= here: hints[t.get_id()] = t
        done_f, done_i = set(), set()
        schem = False
        self.kinds = set()
        byname = {}
        for x in ap: byname.setdefault(x.decl().name(), []).append(x)
        def addterm(f):
            nonlocal syms
            syms |= symbols(f)
            a2 = []; apps(f, a2, seen)
            for x in a2: byname.setdefault(x.decl().name(), []).append(x); ap.append(x)
        for r in range(rounds):
            new = []
            # ground facts in the cone
            ch = True
            while ch:
                ch = False
                for k, F in enumerate(facts):
                    if F.vars or k in done_f: continue
                    if k >= nfacts and not F.early: continue
                    if F.syms is None: F.syms = symbols(F.f)
                    if F.hterm is not None:
                        if not any(t.get_id() in seen for t in (F.hterm if isinstance(F.hterm, tuple) else (F.hterm,))): continue
                    elif not ((F.head & syms) if F.head is not None else (F.syms & syms or not F.syms)): continue
                    done_f.add(k); new.append(F.f); self.kinds.add(F.kind)
                    if not F.syms <= syms: ch = True
                    addterm(F.f)
            # schematic facts
            for k, F in enumerate(facts):
                if not F.vars: continue
                if k >= nfacts and not F.early: continue
                if F.syms is None: F.syms = symbols(F.f)
                if F.head is not None:
                    if not (F.head & syms): continue
                elif not (F.syms & syms): continue
                schem = True
                if F.plan is None: F.plan = Plan(F)
                P = F.plan
                subs = []
                heads = []
                for x, bind, cov in P.main:
                    bk = {b[0]: b for b in bind}
                    for g in list(byname.get(x.decl().name(), ())):
                        if g.num_args() != x.num_args(): continue
                        m = {}
                        ok = True
                        for q in range(x.num_args()):
                            b = bk.get(q)
                            if b is None:
                                if not x.arg(q).eq(g.arg(q)): ok = False; break   # (syntactic)
                            elif b[1] is not None:
                                t = g.arg(q) if not b[2] else z3.simplify(g.arg(q) - b[2])
                                if b[1] in m and not m[b[1]].eq(t): ok = False; break
                                m[b[1]] = t
                        if ok: heads.append(m)
                if not P.main: heads = [{}]
                for m in heads:
                    rest = [v for v in P.vs if v not in m]
                    if not rest: subs.append(m); continue
                    cands = []
                    for v in rest:
                        V = P.vs[v]
                        c = {}
                        if V.sort() == z3.IntSort():
                            c.update(hints)
                            for t in E.inst.get(V.decl().name(), ()): c[tz(t).get_id()] = tz(t)
                        for x, pos, off in P.part[v]:
                            for g in byname.get(x.decl().name(), ()):
                                if g.num_args() != x.num_args(): continue
                                t = g.arg(pos) if not off else z3.simplify(g.arg(pos) - off)
                                if len(c) < 16 + len(hints): c[t.get_id()] = t
                        cands.append([(v, t) for t in c.values() if t.sort() == V.sort()])
                    for combo in itertools.islice(itertools.product(*cands), 300): subs.append(dict(m, **{}) | dict(combo))
                for m in subs:
                    key = (k,) + tuple(m[v].get_id() for v in P.vs)
                    if key in done_i: continue
                    done_i.add(key)
                    if len(done_i) > cap: break
                    self.keep.append(list(m.values()))
                    f = z3.substitute(F.f, *[(P.vs[v], m[v]) for v in P.vs])
                    new.append(f); self.kinds.add(F.kind)
            # sums
            new += self.sumfacts(E, byname, done_i, hints)
            if not new: break
            for f in new:
                f2 = norm(f) if isz(f) else f
                if f2 is True: continue
                out.append(f)
                addterm(f)
        self.schem = schem
        return out
    def sumfacts(self, E, byname, done, hints):
        """facts about the sums that occur: empty, one more term, equal terms"""
        out = []
        ts = [x for nm in E.sums for x in byname.get(nm, ())]
        if len(ts) > 24: ts = ts[:24]
        def inst(x, k):
            F, e, KV, params = E.sums[x.decl().name()]
            return z3.substitute(e, *([(p, x.arg(i)) for i, p in enumerate(params)] + [(KV, tz(k))]))
        for x in ts:
            n = x.arg(x.num_args() - 1)
            if ('s0', x.get_id()) not in done:
                done.add(('s0', x.get_id())); self.keep.append(x); self.kinds.add('sum')
                out.append(z3.Implies(n <= 0, x == 0))
                pn = z3.simplify(n - 1)
                if z3.is_int_value(n) and 0 < n.as_long() <= 8:
                    out.append(x == z3.Sum([inst(x, q) for q in range(n.as_long())]))
        for x, y in itertools.combinations(ts, 2):
            key = ('s2', x.get_id(), y.get_id())
            if key in done: continue
            done.add(key)
            nx, ny = x.arg(x.num_args() - 1), y.arg(y.num_args() - 1)
            if x.decl().eq(y.decl()) and all(x.arg(i).eq(y.arg(i)) for i in range(x.num_args() - 1)):
                out.append(z3.Implies(z3.And(ny == nx + 1, nx >= 0), y == x + inst(x, nx)))
                out.append(z3.Implies(z3.And(nx == ny + 1, ny >= 0), x == y + inst(x, ny)))
                out.append(z3.Implies(nx == ny, x == y))
                continue
            if x.sort() != y.sort(): continue
            if key not in self.sk: self.sk[key] = z3.Int('ext!%d' % len(self.sk))
            w = self.sk[key]
            hints[w.get_id()] = w
            out.append(z3.Implies(z3.And(nx == ny, z3.Implies(z3.And(0 <= w, w < nx), inst(x, w) == inst(y, w))), x == y))
        return out
    keep = []
    def check(self, fs, ms, tactic=None):
        t = time.time()
        s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
        s.set('timeout', int(ms))
        try: s.set('random_seed', 7)
        except z3.Z3Exception: pass
        for f in fs: s.add(f)
        try: r = s.check()
        except z3.Z3Exception: r = z3.unknown
        self.nq += 1; self.tq += time.time() - t
        return r, s
    def quick(self, E, pc, f, ms):
        hyp = [tz(p) for p in pc]
        key = (tuple(h.get_id() for h in hyp), f.get_id(), len(E.facts))
        if key in self.qcache: return self.qcache[key][0]
        ng = z3.Not(f)
        r, _ = self.check(hyp + [ng], 100)
        res = r == z3.unsat
        if not res:
            gs = self.ground(E, hyp + [ng], len(E.facts), 2, cap=200)
            r, _ = self.check(hyp + gs + [ng], ms)
            res = r == z3.unsat
        self.qcache[key] = (res, hyp, f)
        return res
    # ---- an obligation
    def prove(self, E, ob, ms=8000, hints=()):
        t0 = time.time()
        g = ob.goal
        if g is True: return dict(status='proved', backend='evaluation', time=0.0, detail='')
        hyp = [tz(p) for p in ob.hyps]
        ng = z3.Not(tz(g))
        fin = lambda st, be, d='': dict(status=st, backend=be, time=round(time.time() - t0, 3), detail=d)
        base = hyp + [ng] + [tz(h) for h in hints]
        r, s = self.check(base, 200)
        if r == z3.unsat: return fin('proved', 'z3')
        last = ''
        size = -1
        for rounds, cap, b in ((1, 400, ms / 8), (2, 1500, ms / 4), (4, 4000, ms)):
            gs = self.ground(E, base, ob.nfacts, rounds, cap)
            if len(gs) == size and rounds < 4: continue
            size = len(gs)
            fs = [f for f in base + gs]
            if DBG: print('  round', rounds, 'facts', len(gs), end=' ', flush=True)
            tq = time.time()
            r, s = self.check(fs, 700)
            if r == z3.unsat: return fin('proved', 'z3')
            lf = linearise(fs) if r == z3.unknown else None
            if lf is not None:
                r, s = self.check(lf, 1500)
                if r == z3.unsat: return fin('proved', 'z3 (linear)')
                if DBG: print('linear', r, '%.1f' % (time.time() - tq), end=' ', flush=True)
            if r != z3.sat or lf is not None: r, s = self.check(fs, b)
            if DBG: print('direct', r, '%.1f' % (time.time() - tq), end=' ', flush=True)
            if r == z3.unsat: return fin('proved', 'z3')
            if r == z3.sat and rounds == 4:
                m = s.model()
                last = model_str(m, base)
                if ob.definite and not self.schem and not (self.kinds & {'trig', 'sum', 'fmod', 'abs'}): return fin('refuted', 'z3', last)
            if r == z3.unknown and rounds >= 2:
                f2 = self.resolve(fs)
                if f2 is False: return fin('proved', 'z3 (integers)')
                if DBG: print('resolve', '%.1f' % (time.time() - tq), len(f2), end=' ', flush=True)
                f2 = ackermann(f2)
                if not any_int(f2):
                    r, s = self.check(f2, b, 'qfnra-nlsat')
                    if r == z3.unsat: return fin('proved', 'z3 (nlsat)')
                else:
                    r, s = self.check(f2, b)
                    if r == z3.unsat: return fin('proved', 'z3')
                if DBG: print('second', r, '%.1f' % (time.time() - tq), end=' ', flush=True)
            if DBG: print()
        if r == z3.unknown:
            r, s = self.check(fs, ms)
            if r == z3.unsat: return fin('proved', 'z3')
            r = cvc5(fs, max(2000, ms // 2))
            if r == 'unsat': return fin('proved', 'cvc5')
        return fin('countermodel' if last and ob.definite else 'unknown', 'z3', last or 'no answer')
    def resolve(self, fs):
        """decides the integer atoms and equalities that the integer part of the formulas entails; replaces them"""
        flat = []
        for f in fs: flat += conj(f)
        ints = [f for f in flat if not has_real(f)]
        mixed = [f for f in flat if has_real(f)]
        L = linearise(ints) or ints
        t0 = time.time()
        s = z3.Solver(); s.set('timeout', 600)
        for f in L: s.add(f)
        r = s.check()
        if r == z3.unsat: return False
        if r != z3.sat: return fs
        m = s.model()
        sub = []
        # boolean atoms over integers inside the mixed formulas
        for rnd in range(2):
            atoms, terms = {}, {}
            collect(mixed, atoms, terms)
            ch = False
            tl = list(terms.values())
            # equalities between integer terms: representatives are the smaller terms
            tl.sort(key=lambda t: (size_(t), t.get_id()))
            lt_ = linearise(tl, lemmas=False)
            env = []
            groups = {}
            for t, l in zip(tl, lt_):
                try: v = m.eval(l, model_completion=True).as_long()
                except Exception: continue
                done = False
                for t2, l2 in groups.get(v, ())[:6]:
                    if time.time() - t0 > 8: break
                    s.push(); s.add(l != l2); r = s.check(); s.pop()
                    if r == z3.unsat:
                        env.append((t, t2)); done = True; break
                if not done: groups.setdefault(v, []).append((t, l))
            if env:
                env.sort(key=lambda p: -size_(p[0]))
                mixed = [z3.simplify(z3.substitute(f, *env)) for f in mixed]; ch = True
            atoms, terms = {}, {}
            collect(mixed, atoms, terms)
            al = list(atoms.values())
            la = linearise(al, lemmas=False)
            env = []
            for a, l in zip(al, la):
                if time.time() - t0 > 12: break
                v = m.eval(l, model_completion=True)
                if z3.is_true(v): neg_ = z3.Not(l)
                elif z3.is_false(v): neg_ = l
                else: continue
                s.push(); s.add(neg_); r = s.check(); s.pop()
                if r == z3.unsat: env.append((a, v))
            if env:
                mixed = [z3.simplify(z3.substitute(f, *env)) for f in mixed]; ch = True
            mixed = [f for f in mixed if not z3.is_true(f)]
            if any(z3.is_false(f) for f in mixed): return False
            m2 = []
            for f in mixed: m2 += conj(f)
            mixed = m2
            if not ch: break
        # unit real equations t = e for constants t are left to the solver
        left = [f for f in mixed if not has_int_atom(f)]
        if len(left) == len(mixed): return [toreal_free(f) for f in left]
        return ints + mixed
DBG = os.environ.get('DEDDBGP')
def conj(f):
    if z3.is_and(f):
        out = []
        for c in f.children(): out += conj(c)
        return out
    if z3.is_not(f) and z3.is_or(f.arg(0)):
        out = []
        for c in f.arg(0).children(): out += conj(z3.Not(c))
        return out
    if z3.is_not(f) and z3.is_implies(f.arg(0)): return conj(f.arg(0).arg(0)) + conj(z3.Not(f.arg(0).arg(1)))
    if z3.is_not(f) and z3.is_not(f.arg(0)): return conj(f.arg(0).arg(0))
    return [f]
_real = {}
def has_real(f):
    i = f.get_id()
    r = _real.get(i)
    if r is None:
        todo, seen, v = [f], set(), False
        while todo:
            x = todo.pop()
            j = x.get_id()
            if j in seen: continue
            seen.add(j)
            if z3.is_real(x): v = True; break
            todo.extend(x.children())
        _real[i] = r = (f, v)
    return r[1]
_size = {}
def size_(t):
    i = t.get_id()
    if i in _size: return _size[i][1]
    r = 1 + sum(size_(c) for c in t.children())
    _size[i] = (t, r)
    return r
def collect(fs, atoms, terms):
    """integer atoms and maximal integer terms of formulas"""
    seen = set()
    todo = list(fs)
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_bool(x) and not z3.is_true(x) and not z3.is_false(x):
            if x.num_args() == 0: atoms[x.get_id()] = x
            elif not has_real(x) and not (z3.is_and(x) or z3.is_or(x) or z3.is_not(x) or z3.is_implies(x)): atoms[x.get_id()] = x; continue
        if z3.is_int(x) and not z3.is_int_value(x): terms[x.get_id()] = x
        todo.extend(x.children())
def has_int_atom(f):
    at, te = {}, {}
    collect([f], at, te)
    return bool(at) or any(t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED for t in te.values()) and False
def toreal_free(f):
    """to_real(c) of integer terms become real symbols (weaker, hence sound for unsatisfiability)"""
    seen, subs = set(), []
    todo = [f]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
            subs.append((x, realify(x.arg(0)))); continue
        todo.extend(x.children())
    return z3.substitute(f, *subs) if subs else f
def realify(x):
    if z3.is_int_value(x): return z3.RealVal(x.as_long())
    if z3.is_add(x): return z3.Sum([realify(c) for c in x.children()])
    if z3.is_mul(x): return z3.Product([realify(c) for c in x.children()])
    if z3.is_sub(x): return realify(x.arg(0)) - z3.Sum([realify(c) for c in x.children()[1:]])
    return z3.Real('r!' + str(x.get_id())) if x.num_args() else z3.Real('r!' + x.decl().name())

_mono = {}
def linearise(fs, lemmas=True):
    """non-linear products replaced by symbols, with facts about products of integers; None when there is none"""
    memo = {}
    used = {}
    def mono(factors, sort):
        fl = sorted(factors, key=lambda t: t.get_id())
        key = tuple(t.get_id() for t in fl)
        if key not in _mono: _mono[key] = (z3.Const('mono!%d' % len(_mono), sort), fl)
        used[key] = _mono[key]
        return _mono[key][0]
    keep = []
    def go(x):
        stack = [x]
        while stack:
            y = stack[-1]
            if y.get_id() in memo: stack.pop(); continue
            ch = y.children()
            miss = [c for c in ch if c.get_id() not in memo]
            if miss: stack.extend(miss); continue
            stack.pop()
            nc = [memo[c.get_id()] for c in ch]
            r = y
            if z3.is_mul(y):
                cf, fac = [], []
                for c in nc:
                    if z3.is_int_value(c) or z3.is_rational_value(c): cf.append(c)
                    elif z3.is_mul(c):
                        for d in c.children():
                            if z3.is_int_value(d) or z3.is_rational_value(d): cf.append(d)
                            else: fac.append(d)
                    else: fac.append(c)
                if len(fac) >= 2:
                    fac2 = []
                    for q in fac: fac2 += unm.get(q.get_id(), [q])
                    m = mono(fac2, y.sort()); unm[m.get_id()] = fac2; keep.append(m)
                    r = z3.Product(cf + [m]) if cf else m
                elif any(not p.eq(q) for p, q in zip(ch, nc)): r = z3.Product(nc)
            elif ch and any(not p.eq(q) for p, q in zip(ch, nc)): r = rebuild(y, nc)
            memo[y.get_id()] = r; keep.append(y); keep.append(r)
        return memo[x.get_id()]
    unm = {}
    out = [go(z3.simplify(f, som=True)) for f in fs]
    if not lemmas: return out
    if not used: return None
    # products of integers
    ms = [(c, fl) for c, fl in used.values()]
    ims = [(c, fl) for c, fl in ms if z3.is_int(c)]
    ex = []
    def restmono(fl, f):
        r = list(fl)
        for i, t in enumerate(r):
            if t.eq(f): del r[i]; break
        return r[0] if len(r) == 1 else mono(r, f.sort())
    for c, fl in ms:
        if len(fl) == 2:
            a, b = fl
            ex.append(z3.Implies(a == 0, c == 0)); ex.append(z3.Implies(b == 0, c == 0))
            ex.append(z3.Implies(a == 1, c == b)); ex.append(z3.Implies(b == 1, c == a))
            if a.eq(b): ex.append(c >= 0)
    pairs = 0
    for i, (c, fl) in enumerate(ims):
        for f in {t.get_id(): t for t in fl}.values():
            rc = restmono(fl, f)
            ex.append(z3.Implies(z3.And(f >= 0, rc >= 0), c >= 0))
            ex.append(z3.Implies(z3.And(f >= 1, rc >= 1), z3.And(c >= f, c >= rc)))
            for d, gl in ims[i + 1:]:
                if not any(f.eq(t) for t in gl): continue
                rd = restmono(gl, f)
                pairs += 1
                if pairs > 400: break
                ex.append(z3.Implies(f >= 1, z3.And(z3.Implies(rc < rd, c + f <= d), z3.Implies(rd < rc, d + f <= c), z3.Implies(rc == rd, c == d))))
    return out + ex
def rebuild(y, nc):
    k = y.decl().kind()
    if k == z3.Z3_OP_AND: return z3.And(nc)
    if k == z3.Z3_OP_OR: return z3.Or(nc)
    if k == z3.Z3_OP_ADD: return z3.Sum(nc)
    if k == z3.Z3_OP_MUL: return z3.Product(nc)
    if k == z3.Z3_OP_DISTINCT: return z3.Distinct(nc)
    return y.decl()(*nc)
def any_int(fs):
    seen = {}
    todo = list(fs)
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen[x.get_id()] = x
        if z3.is_int(x) and not z3.is_int_value(x): return True
        todo.extend(x.children())
    return False
def model_str(m, base):
    names = set()
    for f in base: names |= symbols(f)
    out = []
    for d in m.decls():
        if d.name() in names:
            out.append('%s = %s' % (d.name(), str(m[d]).replace('\n', ' ')[:120]))
    return '; '.join(sorted(out)[:60])
def ackermann(fs):
    """replaces uninterpreted applications by constants, with congruence axioms"""
    memo, groups, extra = {}, {}, []
    keep = []
    def go(x):
        # children first (explicit stack to avoid deep recursion)
        stack = [x]
        while stack:
            y = stack[-1]
            if y.get_id() in memo: stack.pop(); continue
            ch = y.children()
            miss = [c for c in ch if c.get_id() not in memo]
            if miss: stack.extend(miss); continue
            stack.pop()
            nc = [memo[c.get_id()] for c in ch]
            if z3.is_app(y) and y.num_args() and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                l = groups.setdefault(y.decl().name(), [])
                for a, c in l:
                    if all(p.eq(q) for p, q in zip(a, nc)): r = c; break
                else:
                    r = z3.FreshConst(y.sort(), 'ack')
                    for a, c in l:
                        e = [z3.simplify(p == q) for p, q in zip(a, nc)]
                        if any(z3.is_false(q) for q in e): continue
                        extra.append(z3.Implies(z3.And(e), c == r))
                    l.append((nc, r))
            elif ch and any(not p.eq(q) for p, q in zip(ch, nc)):
                r = rebuild(y, nc)
            else: r = y
            memo[y.get_id()] = r; keep.append(y)
        return memo[x.get_id()]
    out = [go(f) for f in fs]
    return out + extra
def cvc5(fs, ms):
    s = z3.Solver()
    for f in fs: s.add(f)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    if len(txt) > 2000000: return 'unknown'
    try:
        p = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit=%d' % ms], input=txt, capture_output=True, text=True, timeout=ms / 1000 + 5)
        return p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
    except Exception: return 'unknown'
