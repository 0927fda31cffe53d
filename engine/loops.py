"""Loops of unknown length: exact summaries for all iterations.

The state after K full iterations is described by functions of K: closed forms for induction variables, "last
writer" functions for arrays and conditionally assigned variables, sums for accumulators, folds for minima,
maxima and conjunctions, plain recurrences otherwise. All of them are definitions, hence exact; invariants that
follow from them by induction are proved (base and step) before they are used."""
import z3
from fractions import Fraction
from .cxx import Unsupported
from .val import *
from .val import S as simp
from .sym import *

class Gone(Exception): pass

# ---- leaves of values
def diff(a, b, path, out):
    """paths of the leaves of a that differ in b"""
    if a is b: return
    if type(b).__name__ == 'Bad' or type(a).__name__ == 'Bad':
        if a is not b: out[path] = 'bad'
        return
    if a is UNINIT:
        if b is not UNINIT: out[path] = 'late'
        return
    if b is UNINIT: return
    if isnum(a) and isnum(b):
        if not same(a, b) and not (isz(a) or isz(b) or a != b):
            return
        if not same(a, b): out[path] = 'num'
        return
    if isinstance(a, Rec) and isinstance(b, Rec):
        for k in a.f: diff(a.f[k], b.f[k], path + (('f', k),), out)
        return
    if isinstance(a, Arr) and isinstance(b, Arr):
        if not same(a.n, b.n): out[path + (('n',),)] = 'num'
        x, y = a.node, b.node
        if x is y: return
        if isinstance(x, AList) and isinstance(y, AList) and len(x.l) == len(y.l):
            for i in range(len(x.l)): diff(x.l[i], y.l[i], path + (('i', i),), out)
            return
        if isinstance(x, AStore) and isinstance(y, AStore) and x.prev is y.prev and eq(x.i, y.i) is True:
            diff(x.v, y.v, path + (('cell',),), out); return
        if not samenode(x, y): out[path + (('node',),)] = 'node'
        return
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.lv is not None and b.lv is not None and same_lv(a.lv, b.lv) is True and a.idx is not None and b.idx is not None:
            if not same(a.idx, b.idx): out[path + (('idx',),)] = 'num'
            return
        if same(a, b): return
        out[path] = 'bad'; return
    if isinstance(a, MapIt) and isinstance(b, MapIt):
        if same_lv(a.lv, b.lv) is not True or a.vid != b.vid: out[path] = 'bad'; return
        if not same(a.pos, b.pos): out[path + (('pos',),)] = 'num'
        return
    if isinstance(a, MapV) and isinstance(b, MapV):
        if a.vid == b.vid:
            if a.vals is not b.vals: out[path + (('vals',),)] = 'node'
            return
        out[path] = 'map'; return
    if not same(a, b): out[path] = 'bad'
def getp(v, path):
    for s in path:
        k = s[0]
        if k == 'f': v = v.f[s[1]]
        elif k == 'i': v = v.node.l[s[1]]
        elif k == 'n': v = v.n
        elif k == 'node': v = v.node
        elif k == 'cell': v = v.node.v
        elif k == 'idx': v = v.idx
        elif k == 'pos': v = v.pos
        elif k == 'vals': v = v.vals
    return v
def setp(v, path, x):
    if not path: return x
    s, r = path[0], path[1:]
    k = s[0]
    if k == 'f': return v.set(s[1], setp(v.f[s[1]], r, x))
    if k == 'i':
        l = list(v.node.l); l[s[1]] = setp(l[s[1]], r, x); return Arr(v.n, AList(l), v.et)
    if k == 'n': return Arr(x, v.node, v.et)
    if k == 'node': return Arr(v.n, x, v.et)
    if k == 'cell': return Arr(v.n, AStore(v.node.prev, v.node.i, setp(v.node.v, r, x)), v.et)
    if k == 'idx': return Ptr(v.lv, x)
    if k == 'pos': return MapIt(v.lv, x, v.vid)
    if k == 'vals': return v.with_vals(x)
    raise Oops('path')

class LateVal(Unsupported): pass
def samegen(a, b):
    return a is b or (isinstance(a, AGen) and isinstance(b, AGen) and a.key == b.key and len(a.pre) == len(b.pre) and all(eq(x, y) is True for x, y in zip(a.pre, b.pre)))
def written(node, base, i):
    """condition: cell i of node was assigned since base (None: not known)"""
    if samegen(node, base): return False
    if isinstance(node, AStore):
        p = written(node.prev, base, i)
        return None if p is None else lor(eq(node.i, i), p)
    if isinstance(node, AIte):
        a, b = written(node.a, base, i), written(node.b, base, i)
        return None if a is None or b is None else vite(node.c, a, b)
    if isinstance(node, AGen) and node.key in node.eng.genmeta:
        m = node.eng.genmeta[node.key]
        if 'last' not in m: return None
        p = written(m['base'](node.pre), base, i)
        return None if p is None else lor(le(0, m['last'](node.pre, i)), p)
    if isinstance(node, AResize):
        p = written(node.prev, base, i)
        return None if p is None else lor(p, le(node.n, i))
    return None
def stores(node, base, out):
    """flat list of the single stores between base and node; None when there is more"""
    while not samegen(node, base):
        if isinstance(node, AStore): out.append((True, node.i, node.v)); node = node.prev
        elif isinstance(node, AIte):
            a, b = [], []
            if samegen(node.b, base) and stores(node.a, base, a) is not None: return out + [(land(node.c, g), i, v) for g, i, v in a] if not out else None
            if samegen(node.a, base) and stores(node.b, base, b) is not None: return out + [(land(nt(node.c), g), i, v) for g, i, v in b] if not out else None
            return None
        else: return None
    return out
def leaves_eq(a, b):
    if isnum(a) and isnum(b): return eq(a, b)
    if isinstance(a, Rec): return land(*[leaves_eq(a.f[k], b.f[k]) for k in a.f])
    return None
def has(t, name): return isz(t) and name in symbols(t)
def lin(t, k):
    """t = a + c*k with a free of k and c a number: (a, c)"""
    if not isz(t): return t, 0
    kn = k.decl().name()
    if not has(t, kn): return t, 0
    if isreal(t): return None
    a = simp(z3.substitute(t, (k, z3.IntVal(0))))
    d = z3.simplify(z3.substitute(t, (k, z3.IntVal(1))) - tz(a), som=True)
    if not z3.is_int_value(d): return None
    r = z3.simplify(t - tz(a) - d * k, som=True)
    if z3.is_int_value(r) and r.as_long() == 0: return a, d.as_long()
    return None

class Summary:
    def __init__(self, E, st, n, cond, inc, body, spec):
        self.E, self.entry, self.n, self.cond, self.inc, self.body, self.spec = E, st, n, cond, inc, body, spec
        self.K = E.loop_sym('K')
        self.outer = list(E.loopvars)
        self.leaf = {}       # (root, path) -> dict
        self.label = '%s loop %d' % (E.fnstack[-1] if E.fnstack else '', E.loopord.get('n', {}).get(n['id'], 0))
    def at(self, x, t): return vsub(x, [(self.K, tz(t))])
    # ---- one run of the body from the generic state
    def run(self, pre):
        E = self.E
        s = St(dict(self.entry.mem), list(self.entry.pc))
        for (root, path), L in self.leaf.items():
            if L['g'] is not None: s.mem[root] = setp(s.mem[root], path, L['g'])
        for c in pre: s.cond(c)
        self.gen = s.copy()
        E.loopvars.append(self.K)
        keep_ret = E.rettype
        so = E.loopord; E.loopord = {'n': dict(so.get('n', {}))}
        try:
            c = True if self.cond is None else tobool(E.ev(s, self.cond))
            self.c = c
            if not s.cond(c): raise Oops('loop condition')
            self.npc = len(s.pc)
            base = s.copy()
            f = E.block(s, self.body)
            nx = ([(f.next, None)] if f.next is not None else []) + [(x, None) for x in f.conts]
            end = None
            if nx:
                try:
                    end = E.merge_outs(base, nx)[0] if len(nx) > 1 else nx[0][0]
                    if self.inc is not None: E.ev(end, self.inc)
                except Dead: end = None
        finally:
            E.loopvars.pop(); E.rettype = keep_ret; E.loopord = so
        self.brks, self.rets, self.end = f.brks, f.rets, end
        return end
    def dry(self, pre):
        E = self.E
        E.approx += 1
        nf, no, rg, ch = len(E.facts), len(E.obs), set(E.ranged), E.checks
        hp, ra = len(E.heap), getattr(E, 'frame', None)
        try: return self.run(pre)
        finally:
            E.approx -= 1
            del E.facts[nf:]; del E.obs[no:]; E.ranged = rg
            del E.heap[hp:]
    # ---- leaves
    def find_leaves(self):
        """modified leaves, to a fixpoint"""
        E = self.E
        for it in range(12):
            end = self.dry([le(0, self.K)])
            new = 0
            if end is None: return
            changed = {}
            for root in self.gen.mem:
                if root not in end.mem:
                    continue
                out = {}
                diff(self.gen.mem[root], end.mem[root], (), out)
                for p, kind in out.items(): changed[(root, p)] = kind
            # states at breaks and returns may differ too: they are taken as they are
            for key, kind in changed.items():
                if key in self.leaf: continue
                self.add_leaf(key, kind); new += 1
            if not new: return
        raise Oops('loop state does not settle')
    def add_leaf(self, key, kind):
        E = self.E
        root, path = key
        # an array whose contents become symbolic subsumes its cells
        v0 = getp(self.entry.mem[root], path) if self.parent_ok(root, path) else None
        if path and path[-1] == ('node',):
            for k in [k for k in self.leaf if k[0] == root and k[1][:len(path) - 1] == path[:-1] and len(k[1]) >= len(path) and k[1][-1] != ('n',) and k != key]: del self.leaf[k]
            v0 = getp(self.entry.mem[root], path)
            arr = getp(self.entry.mem[root], path[:-1])
            nm = E.fresh_name('a')
            L = dict(kind='node', v0=v0, name=nm, et=arr.et)
            L['g'] = AGen(E, arr.et, nm, self.outer + [self.K])
        elif path and path[-1] == ('vals',):
            m = getp(self.entry.mem[root], path[:-1])
            nm = E.fresh_name('a')
            L = dict(kind='node', v0=v0, name=nm, et=m.vt)
            L['g'] = AGen(E, m.vt, nm, self.outer + [self.K])
        elif kind == 'num':
            v0 = getp(self.entry.mem[root], path)
            srt = tz(v0).sort()
            nm = E.fresh_name('v')
            L = dict(kind='num', v0=v0, name=nm, g=z3.Function(nm, *([z3.IntSort()] * (len(self.outer) + 1) + [srt]))(*(self.outer + [self.K])))
            L['fn'] = L['g'].decl()
        elif kind == 'late':
            L = dict(kind='late', v0=v0, name=None, g=None)
        else:
            from .exe import Bad
            L = dict(kind='bad', v0=v0, name=None, g=Bad('%s changed by %s' % (kind, self.label)))
        self.leaf[key] = L
    def parent_ok(self, root, path):
        try: getp(self.entry.mem[root], path); return True
        except Exception: return False
    def endv(self, key): return getp(self.end.mem[key[0]], key[1])
    def names(self): return set(L['name'] for L in self.leaf.values() if L.get('name') and L.get('closed') is None)
    def varies(self, t):
        """depends on the iteration"""
        if not isz(t): return False
        return self.K.decl().name() in symbols(t)
    def closed_forms(self):
        E = self.E
        for it in range(6):
            prog = False
            # induction variables
            for key, L in self.leaf.items():
                if L['kind'] != 'num' or L.get('closed') is not None or not isz(L['g']): continue
                try: e = self.endv(key)
                except Exception: continue
                if isint(L['g']) and isnum(e):
                    d = simp(tz(ti(e)) - L['g']) if not isreal(e) else None
                    if d is not None and self.varies(d):
                        for c in (1, -1, 2, -2):
                            if isz(e) and E.solver.quick(E, self.end.pc, tz(e) == L['g'] + c, 300): d = c; break
                    if d is not None and not self.varies(d):
                        L['closed'] = add(L['v0'], mul(d, self.K)); L['g'] = L['closed']; prog = True
            if prog: self.dry([le(0, self.K)]); continue
            # cells at fixed indices
            for key, L in list(self.leaf.items()):
                if L['kind'] != 'node' or key[1][-1] != ('node',) or L.get('nopromo'): continue
                try: e = self.endv(key)
                except Exception: continue
                sl = stores(e, L['g'], [])
                if sl and all(not self.varies(i) for _, i, _ in sl) and all(eq(i, sl[0][1]) is True for _, i, _ in sl):
                    root, path = key
                    i0 = sl[0][1]
                    et = L['et']
                    if et.k not in ('int', 'real', 'bool'): L['nopromo'] = True; continue
                    arr = getp(self.entry.mem[root], path[:-1])
                    # a cell for the index: the entry state is the same array, with the cell made explicit
                    cur = arr.get(i0)
                    self.entry = self.entry.copy()
                    self.entry.mem[root] = setp(self.entry.mem[root], path, AStore(arr.node, i0, cur))
                    del self.leaf[key]
                    self.add_leaf((root, path[:-1] + (('cell',),)), 'num')
                    prog = True
            if prog:
                self.find_leaves(); continue
            return
    # ---- trip count
    def trip(self):
        """number of iterations allowed by the condition alone; None when it is not a linear condition"""
        E, K = self.E, self.K
        self.tconds, self.xconds = [], []
        c = self.c
        T_ = None
        if c is True: return None
        cj = list(c.children()) if z3.is_and(c) else [c]
        best = None
        for x in cj:
            x = norm(x)
            r = self.trip1(x) if isz(x) else None
            if r is not None and best is None: best = r
            else: self.xconds.append(x)
        return best
    def trip1(self, x):
        E, K = self.E, self.K
        neg_ = False
        while z3.is_not(x): x = x.arg(0); neg_ = not neg_
        if not (z3.is_app(x) and x.num_args() == 2 and z3.is_int(x.arg(0))): return None
        a, b = x.arg(0), x.arg(1)
        k = x.decl().kind()
        if k == z3.Z3_OP_EQ or k == z3.Z3_OP_DISTINCT:
            if (k == z3.Z3_OP_EQ) != neg_: return None
            r = lin(sub(a, b), K)
            if r is None or r[1] not in (1, -1): return None
            # equality is reached after -r0/r1 iterations
            n = neg(r[0]) if r[1] == 1 else r[0]
            return simp(n) if isz(n) else n
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if k in (z3.Z3_OP_GT, z3.Z3_OP_GE): a, b = b, a
        elif k not in (z3.Z3_OP_LT, z3.Z3_OP_LE): return None
        if neg_: a, b, strict = b, a, not strict      # not (a <= b)  is  b < a
        r = lin(sub(b, a), K)        # holds iff r0 + r1*K > 0 (or >= 0)
        if r is None or r[1] >= 0: return None
        r0, st = r[0], -r[1]
        if not strict: r0 = add(r0, 1)
        if st == 1: n = r0
        else: n = self.E.div(self.entry, add(r0, st - 1), st, None)[0]
        n = simp(n) if isz(n) else n
        if not isz(n): return max(n, 0)
        if E.entails(self.entry, n >= 0): return n
        return z3.If(n >= 0, n, z3.IntVal(0))
    # ---- definitions
    def define(self, N):
        """facts that define the leaves"""
        E, K = self.E, self.K
        kn = K.decl().name()
        for key, L in self.leaf.items():
            if L['kind'] == 'num' and L.get('closed') is None:
                try: e = self.endv(key)
                except Exception: continue
                if not isnum(e): continue
                self.define_num(L, e, N)
            elif L['kind'] == 'node':
                try: e = self.endv(key)
                except Exception: continue
                self.define_node(L, e, N)
    def define_num(self, L, e, N):
        E, K = self.E, self.K
        g, fn, v0, nm = L['g'], L['fn'], L['v0'], L['name']
        rng = land(le(0, K), lt(K, N))
        g0 = fn(*(self.outer + [z3.IntVal(0)]))
        if isreal(g): e = tr(e)
        elif isint(g): e = ti(e)
        E.add_fact(tz(g0) == tz(v0), 'def', head=[nm], early=True)
        own = has(e, nm)
        g1 = fn(*(self.outer + [K + 1]))
        zero = z3.RealVal(0) if isreal(g) else z3.IntVal(0) if isint(g) else None
        if zero is not None and not z3.is_bool(g):
            e0 = z3.substitute(tz(e), (g, zero))
            if not has(e0, nm):
                sm = z3.simplify(tz(e) - (g + e0), som=True)
                ok = (z3.is_rational_value(sm) or z3.is_int_value(sm)) and norm(sm) == 0
                if not ok: ok = own and E.solver.quick(E, [], tz(e) == g + e0, 300)
                if ok and own:
                    # an accumulator
                    sN = E.sum(K, norm(e0), K)
                    E.add_fact(imp(land(le(0, K), le(K, N)), eq(g, add(v0, sN))), 'def', head=[nm], early=True)
                    L['sum'] = norm(e0)
                    return
        r = self.last_num(L, e, N)
        if r: return
        if own and z3.is_bool(g):
            c = z3.substitute(tz(e), (g, z3.BoolVal(True)))
            if not has(c, nm) and E.solver.quick(E, [], tz(e) == z3.And(g, c), 300):
                W = z3.Function(nm + 'w', *([z3.IntSort()] * (len(self.outer) + 2)))(*(self.outer + [K]))
                q = E.loop_sym('q')
                E.add_fact(imp(land(le(0, K), le(K, N), g), land(v0)), 'def', head=[nm], early=True)
                E.add_fact(imp(land(le(0, K), le(K, N), g, le(0, q), lt(q, K)), self.at(norm(c), q)), 'def', head=[nm], early=True)
                E.add_fact(imp(land(le(0, K), le(K, N), nt(g), v0), land(le(0, W), lt(W, K), nt(self.at(norm(c), W)))), 'def', head=[nm], early=True)
                return
        if own and isreal(g) or own and isint(g) and not z3.is_bool(g):
            # minimum or maximum
            X = None
            if z3.is_app(e) and z3.is_app_of(e, z3.Z3_OP_ITE):
                for x in (e.arg(1), e.arg(2)):
                    if not has(x, nm): X = x
                if X is not None:
                    for cmp_, nme in ((le, 'min'), (lambda a, b: le(b, a), 'max')):
                        want = z3.If(cmp_(X, g), X, g)
                        if E.solver.quick(E, [], tz(e) == want, 300):
                            W = z3.Function(nm + 'w', *([z3.IntSort()] * (len(self.outer) + 2)))(*(self.outer + [K]))
                            q = E.loop_sym('q')
                            dom = land(le(0, K), le(K, N))
                            E.add_fact(imp(dom, cmp_(g, v0)), 'def', head=[nm], early=True)
                            E.add_fact(imp(land(dom, le(0, q), lt(q, K)), cmp_(g, self.at(norm(X), q))), 'def', head=[nm], early=True)
                            E.add_fact(imp(dom, lor(eq(g, v0), land(le(0, W), lt(W, K), eq(g, self.at(norm(X), W))))), 'def', head=[nm], early=True)
                            return
        E.add_fact(imp(rng, eq(g1, e)), 'def', head=[nm], trig=[nm], early=True)
    def last_num(self, L, e, N):
        """v = ite(c, x, v) with c and x independent of v"""
        E, K = self.E, self.K
        g, nm = L['g'], L['name']
        c, x = cond_write(norm(tz(e)), g)
        if c is None or has(c, nm) or (x is not None and has(x, nm)): return False
        W = z3.Function(nm + 'l', *([z3.IntSort()] * (len(self.outer) + 2)))(*(self.outer + [K]))
        q = E.loop_sym('q')
        dom = land(le(0, K), le(K, N))
        if c is True: E.add_fact(imp(land(dom, lt(0, K)), eq(g, self.at(x, sub(K, 1)))), 'def', head=[nm], early=True)
        else:
            E.add_fact(imp(dom, land(le(-1, W), lt(W, K), imp(lt(W, 0), eq(g, L['v0'])), imp(le(0, W), land(self.at(c, W), eq(g, self.at(x, W)))))), 'def', head=[nm], trig=[nm], early=True)
            E.add_fact(imp(land(dom, lt(W, q), le(0, q), lt(q, K)), nt(self.at(c, q))), 'def', head=[nm], early=True)
        return True
    def define_node(self, L, e, N):
        E, K = self.E, self.K
        nm = L['name']
        g, v0 = L['g'], L['v0']
        i = E.loop_sym('x')
        meta = dict(K=K, outer=self.outer)
        no = len(self.outer)
        W = written(e, g, i)
        dom = land(le(0, K), le(K, N))
        if W is None:
            E.notes.append('array contents kept abstract in ' + self.label)
            return
        # explicit last writer when there is one store at a linear index
        sl = stores(e, g, [])
        last = None
        kk = len(self.outer)
        LF = z3.Function(nm + 'l', *([z3.IntSort()] * (no + 3)))
        Lt = LF(*(self.outer + [K, i]))
        if sl is not None and len(sl) == 1:
            gd, ix, _ = sl[0]
            r = lin(ix, K)
            if r is not None and r[1] != 0:
                if abs(r[1]) == 1:
                    q = sub(i, r[0]) if r[1] == 1 else sub(r[0], i)
                    ok = True
                else:
                    t = sub(i, r[0]); q = tz(t) / z3.IntVal(r[1]); ok = eq(tz(t) % z3.IntVal(abs(r[1])), 0)
                w = land(ok, le(0, q), lt(q, K), self.at(gd, q))
                E.add_fact(eq(Lt, vite(w, q, -1)), 'def', head=[nm, nm + 'l'], trig=[nm + 'l'], early=True)
                last = True
        base0 = v0
        ov = list(self.outer)
        meta['last'] = lambda pre, x: LF(*([tz(p) for p in pre] + [tz(x)]))
        meta['base'] = lambda pre: base0.sub(list(zip(ov, [tz(p) for p in pre[:-1]]))) if ov else base0
        E.genmeta[nm] = meta
        def atL(x): return vsub(x, [(K, Lt)])
        ge, be, ee = g.get(i), v0.get(i), e.get(i)
        parts = list(leaf_pairs(ge, be, ee))
        eqs0 = [eq(a, b) for a, b, _ in parts]
        eqsL = [eq(a, atL(c)) for a, _, c in parts]
        fns = set()
        for a, _, _ in parts: fns |= symbols(tz(a)) - set(v.decl().name() for v in [K, i] + self.outer)
        fns = set(x for x in fns if x == nm or (x.startswith(nm) and x[len(nm)] in '.@#'))
        E.add_fact(imp(dom, imp(lt(Lt, 0), land(*eqs0))), 'def', head=fns, trig=fns, early=True)
        E.add_fact(imp(dom, imp(le(0, Lt), land(*eqsL))), 'def', head=fns, trig=fns, early=True)
        E.add_fact(imp(dom, land(le(-1, Lt), lt(Lt, K), imp(le(0, Lt), atL(W)))), 'def', head=[nm + 'l'], trig=[nm + 'l'], early=True)
        if last is None:
            q = E.loop_sym('q')
            E.add_fact(imp(land(dom, lt(Lt, q), le(0, q), lt(q, K)), nt(self.at(W, q))), 'def', head=[nm + 'l'], trig=[nm + 'l'], early=True)
    # ---- putting it together
    def summarize(self):
        E, K = self.E, self.K
        from .exe import Flow
        self.find_leaves()
        if self.end is not None: self.closed_forms()
        pre = [le(0, K)]
        if self.end is None:
            raise Oops('loop body never completes')
        Tc = self.trip()
        if E.debug: print('LOOP', self.label, 'cond', self.c, 'trip', Tc, {str(k[0][-1])[-5:] + str(k[1]): (L['kind'], L.get('closed')) for k, L in self.leaf.items()}, 'exits', len(self.brks), len(self.rets))
        early = bool(self.brks or self.rets or self.xconds) or Tc is None
        if not early: N = Tc
        else:
            N = E.fint('N')
            E.add_fact(N >= 0, 'trip', early=True)
            if Tc is not None: E.add_fact(le(N, Tc), 'trip', early=True)
        self.N = N
        E.ntrip = getattr(E, 'ntrip', []); E.ntrip.append(N)
        # auxiliary invariants (proved by induction)
        self.auto_bounds(N, pre)
        lem = []
        pre2 = [le(0, K), lt(K, N) if not early else le(K, N)] + ([lt(K, Tc)] if early and Tc is not None else [])
        spec = self.spec
        if spec is not None: lem = self.lemmas(spec, N, pre2, early)
        # the run that counts
        no = len(E.obs)
        E.hints.append(K)
        nfacts0 = len(E.facts)
        end = self.run(pre2 + lem)
        if end is not None: self.define(N)
        if spec is not None and end is not None: self.lemma_steps(spec, N, end)
        # nothing leaves the loop before iteration N
        r = Flow(None)
        subK = lambda s: St({k: self.at(v, N) if not self.local(k) else v for k, v in s.mem.items()}, [self.at(p, N) for p in s.pc])
        npre = len(self.entry.pc)
        exits = []
        for s in self.brks: exits.append(land(*s.pc[npre:]))
        for s, _ in self.rets: exits.append(land(*s.pc[npre:]))
        if early:
            q = K
            stay = []
            cfin = self.c
            if cfin is not True: E.add_fact(imp(land(le(0, K), lt(K, N)), cfin), 'trip', early=True)
            # exit conditions hold only at iteration N: the path conditions of break states mention K <= N
            for s in self.brks: E.add_fact(imp(land(le(0, K), lt(K, N)), nt(land(*s.pc[self.npc:] ) if len(s.pc) >= self.npc else False)), 'trip', early=True)
            for s, _ in self.rets: E.add_fact(imp(land(le(0, K), lt(K, N)), nt(land(*s.pc[self.npc:]))), 'trip', early=True)
        outs = []
        # normal exit
        g = self.gen_at(N)
        done = True if not early else (nt(self.at(self.c, N)) if self.c is not True else False)
        if done is not False:
            if isz(done): g.cond(done)
            if early and Tc is not None and not self.xconds: pass
            outs.append((g, None))
        for s in self.brks: outs.append((subK(s), None))
        for s, v in self.rets:
            if isinstance(v, LV): v = lvsub(v, [(K, tz(N))])
            r.rets.append((subK(s), self.at(v, N) if v is not None and not isinstance(v, LV) else v))
        if outs:
            for s, _ in outs: self.tidy(s)
            r.next = E.merge_outs(self.entry, outs)[0] if len(outs) > 1 else outs[0][0]
        for s, _ in r.rets: self.tidy(s)
        return r
    def local(self, k): return False
    def gen_at(self, N):
        s = St(dict(self.entry.mem), list(self.entry.pc))
        from .exe import Bad
        for (root, path), L in self.leaf.items():
            if L['kind'] == 'late': s.mem[root] = setp(s.mem[root], path, Bad('value set in ' + self.label)) if path else Bad('value set in ' + self.label); continue
            s.mem[root] = setp(s.mem[root], path, self.at(L['g'], N))
        # objects created by the last iteration (temporaries, globals)
        for k in self.end.mem:
            if k not in s.mem and isinstance(k, tuple) and k[0] == 'g': s.mem[k] = self.end.mem[k]
        return s
    def tidy(self, s): pass
    def auto_bounds(self, N, pre):
        """integer variables that never drop below (or exceed) their initial value"""
        E, K = self.E, self.K
        for key, L in self.leaf.items():
            if L['kind'] != 'num' or L.get('closed') is not None or not isint(L['g']) or z3.is_bool(L['g']): continue
            try: e = self.endv(key)
            except Exception: continue
            if not isint(e): continue
            for rel in (lambda a, b: le(b, a), le):
                h = rel(L['g'], L['v0'])
                if h is True or E.solver.quick(E, self.end.pc + ([h] if isz(h) else []), tz(rel(e, L['v0'])), 300):
                    E.add_fact(imp(land(le(0, K), le(K, N)), h), 'inv', head=[L['name']], trig=[L['name']], early=True)
    def lemmas(self, spec, N, pre2, early):
        """contract-supplied invariants: base case now, step after the body"""
        E, K = self.E, self.K
        s = St(dict(self.entry.mem), list(self.entry.pc))
        for (root, path), L in self.leaf.items():
            if L['g'] is not None: s.mem[root] = setp(s.mem[root], path, L['g'])
        E.loopvars.append(K)
        try: inv = spec(E, s, K, N)
        finally: E.loopvars.pop()
        out = []
        for name, f in inv:
            if f is True: continue
            if f is False: f = z3.BoolVal(False)
            f0 = self.at(f, 0)
            # base case: with the initial values of the leaves
            base = St(dict(self.entry.mem), list(self.entry.pc))
            sub0 = [(L['fn'](*(self.outer + [z3.IntVal(0)])), tz(L['v0'])) for L in self.leaf.values() if L['kind'] == 'num' and L.get('closed') is None]
            if isz(f0): f0 = norm(z3.substitute(f0, *sub0)) if sub0 else f0
            E.oblige(base, '%s: %s (base)' % (self.label, name), f0, definite=False)
            out.append(f)
        self.invs = list(zip([n for n, _ in inv if _ is not True], out))
        return out
    def lemma_steps(self, spec, N, end):
        E, K = self.E, self.K
        for name, f in self.invs:
            f1 = self.at(f, K + 1)
            # the step is an obligation at the end of the iteration, under the invariants at its start
            sub1 = []
            for key, L in self.leaf.items():
                if L['kind'] == 'num' and L.get('closed') is None:
                    try: sub1.append((L['fn'](*(self.outer + [K + 1])), tz(self.endv(key))))
                    except Exception: pass
            f1 = norm(z3.substitute(f1, *sub1)) if sub1 else f1
            E.loopvars.append(K)
            try: E.oblige(end, '%s: %s (step)' % (self.label, name), f1, definite=False)
            finally: E.loopvars.pop()
        for name, f in self.invs:
            E.add_fact(imp(land(*self.entry.pc, le(0, K), le(K, N)), f), 'inv', early=False)

def leaf_pairs(a, b, c):
    if isnum(a) and isnum(b) and isnum(c):
        yield a, b, c; return
    if isinstance(a, Rec) and isinstance(b, Rec) and isinstance(c, Rec):
        for k in a.f: yield from leaf_pairs(a.f[k], b.f[k], c.f[k])
def cond_write(e, g):
    """e = ite(c, x, g): (c, x)"""
    if not isz(e) or not (symbols(e) & {g.decl().name()}): return True, e
    if e.eq(g): return False, None
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c = norm(e.arg(0))
        ca, xa = cond_write(norm(e.arg(1)), g)
        cb, xb = cond_write(norm(e.arg(2)), g)
        if ca is None or cb is None: return None, None
        w = vite(c, ca, cb) if isz(ca) or isz(cb) or ca != cb else ca
        x = xb if xa is None else xa if xb is None else vite(c, xa, xb)
        return w, x
    return None, None

def summarize(E, st, n, cond, inc, body, spec):
    S_ = Summary(E, st, n, cond, inc, body, spec)
    E.summarized = getattr(E, 'summarized', 0) + 1
    return S_.summarize()
