"""Symbolic semantics of the extracted functions: generates the proof obligations.

Integers are mathematical (unsigned wrap-around is modelled, signed overflow is assumed away), doubles are
reals. Loops are unrolled when their condition is decided, otherwise summarised for all iterations."""
import z3, itertools
from fractions import Fraction
from .cxx import T, ty, line, Unsupported
from .val import *
from .val import S as simp

class Dead(Exception): pass        # this path ends here
U64 = 1 << 64
DBLMAX = Fraction(1 << 1023) * 2
def const_t(n): return T('int', (True, 32))

class St:
    __slots__ = ('mem', 'pc')
    def __init__(self, mem, pc): self.mem, self.pc = mem, pc
    def copy(self): return St(dict(self.mem), list(self.pc))
    def take(self, o): self.mem, self.pc = o.mem, o.pc
    def cond(self, c):
        """adds a path condition; False when the path is dead"""
        c = norm(c) if isz(c) else c
        if c is False: return False
        if c is not True: self.pc = self.pc + [c]
        return True

class Fact:
    """f holds for all values of vars; head: symbols it defines (relevant only when one of them occurs); trig: functions to match"""
    __slots__ = ('vars', 'f', 'syms', 'kind', 'head', 'trig', 'plan', 'cross', 'early', 'hterm')
    def __init__(self, vars, f, kind=None, head=None, trig=None, cross=False):
        self.vars, self.f, self.syms, self.kind, self.plan, self.cross = tuple(vars), f, None, kind, None, cross
        self.head = frozenset(head) if head is not None else None
        self.trig = frozenset(trig) if trig is not None else None
        self.early, self.hterm = False, None
class Ob:
    def __init__(self, name, hyps, goal, nfacts, loopvars, definite): self.name, self.hyps, self.goal, self.nfacts, self.loopvars, self.definite = name, hyps, goal, nfacts, loopvars, definite

class Eng:
    def __init__(self, prog, solver):
        self.p, self.solver = prog, solver
        self.cnt = 0
        self.facts, self.obs = [], []
        self.loopvars, self.inst, self.sums, self.loopinfo = [], {}, {}, {}
        self.contracts = {}      # qualified name -> callable(engine, st, this, args, node) -> value
        self.loopspec = {}       # (function, ordinal) -> loop contract
        self.ranged = set()
        self.keepl = []
        self.genmeta = {}
        import os
        self.debug = os.environ.get('DEDDBG')
        self.notes = []
        self.sumdef = {}
        self.fnstack = []
        self.depth = 0
        self.checks = True       # emit safety obligations
        self.unrolled = 0
        self.approx = 0          # > 0: states are guesses of a dry run
        self.used = set()        # functions whose body was executed
        self.assumed = set()     # contracts and library models used
        self.hints = []          # extra index terms for instantiation
        self.uid = 0
        self.maxunroll = 300
        self.declared_inf = z3.Real('inf!')
        self.definite = True
    # ---- symbols
    def fresh_name(self, n='t'):
        self.cnt += 1
        return '%s!%d' % (n, self.cnt)
    def sym(self, sort, n='t', args=None):
        n = self.fresh_name(n)
        ks = list(self.loopvars if args is None else args)
        if not ks: return z3.Const(n, sort)
        return z3.Function(n, *([k.sort() for k in ks] + [sort]))(*ks)
    def fint(self, n='i'): return self.sym(z3.IntSort(), n)
    def freal(self, n='x'): return self.sym(z3.RealSort(), n)
    def fbool(self, n='b'): return self.sym(z3.BoolSort(), n)
    def mk(self, t, name, idx=()):
        """unknown value of type t"""
        k = t.k
        if k in ('int', 'real', 'bool'):
            srt = {'int': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort()}[k]
            zi = [tz(i) for i in idx]
            x = z3.Function(name, *([i.sort() for i in zi] + [srt]))(*zi) if zi else z3.Const(name, srt)
            if k == 'int': self.range_fact(x, t)
            return x
        if k == 'ref': return self.mk(t.a, name, idx)
        if k == 'vec':
            n = self.mk(T('int', (False, 63)), name + '#', idx)
            return Arr(n, AUF(self.mk, t.a, name + '@', idx), t.a)
        if k == 'arr':
            if t.n is not None and t.n <= 24: return Arr(t.n, AList([self.mk(t.a, name + '@%d' % i, idx) for i in range(t.n)]), t.a)
            return Arr(t.n, AUF(self.mk, t.a, name + '@', idx), t.a)
        if k == 'pair': return Rec('pair', {'first': self.mk(t.a, name + '.1', idx), 'second': self.mk(t.b, name + '.2', idx)})
        if k == 'rec':
            if t.a not in self.p.fields: raise Oops('record ' + t.a)
            return Rec(t.a, {f['name']: self.mk(ty(f), name + '.' + f['name'], idx) for f in self.p.fields[t.a]})
        if k in ('map', 'set'):
            n = self.mk(T('int', (False, 63)), name + '#', idx)
            m = MapV(n, AUF(self.mk, t.a, name + '.k', idx), AUF(self.mk, t.b, name + '.v', idx) if k == 'map' else None, t.a, t.b)
            return m
        if k in ('ptr', 'mapit', 'riter'): return UNINIT
        if k in ('opaque', 'str', 'fun'): return UNINIT
        raise Oops('unknown value of type %r' % (t,))
    def range_fact(self, x, t):
        if self.seen('range', x): return
        sg, w = t.a
        if sg: f = z3.And(x >= -(1 << (w - 1)), x < (1 << (w - 1)))
        else: f = z3.And(x >= 0, x < (1 << w))
        self.add_fact(f, 'range', hterm=x)
    def add_fact(self, f, kind=None, head=None, trig=None, early=False, hterm=None):
        f = norm(f) if isz(f) else f
        if f is True: return
        vs = self.free_loopvars(f) if isz(f) else ()
        F = Fact(vs, tz(f), kind, head, trig)
        F.early = early or kind in ('range', 'div', 'rdiv', 'trig', 'sqrt', 'fmod', 'sum')
        F.hterm = hterm
        self.facts.append(F)
    def loop_sym(self, n):
        """schematic integer variable: facts that mention it hold for all its values"""
        k = z3.Int(self.fresh_name(n + '~'))
        self.loopinfo[k.decl().name()] = k
        return k
    def index_term(self, t, var=None):
        """registers a term to instantiate schematic variables with"""
        self.hints.append(t)
    def seen(self, *key):
        terms = [k for k in key if isz(k)]
        k = tuple(x.get_id() if isz(x) else x for x in key)
        if k in self.ranged: return True
        self.ranged.add(k); self.keepl.append(terms)
        return False
    def free_loopvars(self, f):
        if not self.loopinfo: return ()
        names = symbols(f)
        return tuple(k for n, k in self.loopinfo.items() if n in names)
    def fresh(self, t, n='u'):
        n = self.fresh_name(n)
        return self.mk(t, n, tuple(self.loopvars))
    def assume(self, st, f, kind=None):
        f = norm(f) if isz(f) else f
        if f is True: return
        self.add_fact(imp(land(*st.pc), f), kind)
    def oblige(self, st, name, goal, definite=None):
        if self.approx: return
        goal = norm(goal) if isz(goal) else goal
        fn = self.fnstack[-1] if self.fnstack else ''
        o = Ob(name if name.startswith('=') else '%s: %s' % (fn, name), list(st.pc), goal, len(self.facts), tuple(self.loopvars), self.definite if definite is None else definite)
        self.obs.append(o)
    def entails(self, st, f, ms=400):
        f = simp(f) if isz(f) else f
        if isinstance(f, bool): return f
        return self.solver.quick(self, st.pc, f, ms)
    def decide(self, st, c):
        """True / False / None"""
        c = simp(c) if isz(c) else c
        if isinstance(c, bool): return c
        if self.entails(st, c): return True
        if self.entails(st, nt(c)): return False
        return None
    # ---- memory
    def read(self, st, lv, node=None):
        if lv.root not in st.mem: raise Oops('unknown object %r' % (lv.root,))
        if isinstance(lv.root, tuple) and lv.root[0] == 'h' and st.mem.get(('live', lv.root)) is not True:
            if st.mem.get(('live', lv.root)) is False: self.oblige(st, 'access to freed memory', False)
        v = st.mem[lv.root]
        for s in lv.steps: v = self.step(st, v, s)
        if isinstance(v, RefVal): return self.read(st, v.lv)
        if type(v).__name__ == 'Bad': raise Oops(v.why)
        return v
    def step(self, st, v, s):
        if isinstance(v, RefVal): v = self.read(st, v.lv)
        if s[0] == 'f':
            if not isinstance(v, Rec): raise Oops('field %s of %r' % (s[1], v))
            return v.get(s[1])
        if s[0] == 'i':
            if not isinstance(v, Arr): raise Oops('element of %r' % (v,))
            self.bounds(st, v, s[1])
            return v.get(s[1])
        if s[0] == 'm':
            if not isinstance(v, MapV): raise Oops('entry of %r' % (v,))
            self.oblige_c(st, 'dereference of a map iterator at the end', land(le(0, s[1]), lt(s[1], v.n)))
            return Rec('pair', {'first': v.keys.get(s[1]), 'second': v.vals.get(s[1])}) if v.vals is not None else v.keys.get(s[1])
    def oblige_c(self, st, name, c):
        if self.checks and c is not True: self.oblige(st, name, c)
    def bounds(self, st, a, i):
        if not self.checks or self.approx: return
        if a.n is None: return
        c = land(le(0, i), lt(i, a.n))
        if c is True: return
        self.oblige(st, 'index within the array', c)
    def write(self, st, lv, v):
        if lv.root not in st.mem: raise Oops('unknown object %r' % (lv.root,))
        cur = st.mem[lv.root]
        if isinstance(cur, RefVal): return self.write(st, LV(cur.lv.root, cur.lv.steps + lv.steps), v)
        if isinstance(lv.root, tuple) and lv.root[0] == 'h' and st.mem.get(('live', lv.root)) is False: self.oblige(st, 'access to freed memory', False)
        if isinstance(lv.root, tuple) and lv.root[0] == 'ro': self.oblige(st, 'write to an input', False)
        st.mem[lv.root] = self.put(st, cur, lv.steps, v)
    def put(self, st, cur, steps, v):
        if not steps: return v
        s = steps[0]
        if s[0] == 'f': return cur.set(s[1], self.put(st, cur.get(s[1]), steps[1:], v))
        if s[0] == 'i':
            if not isinstance(cur, Arr): raise Oops('element of %r' % (cur,))
            self.bounds(st, cur, s[1])
            nv = v if len(steps) == 1 else self.put(st, cur.get(s[1]), steps[1:], v)
            return cur.set(s[1], nv)
        if s[0] == 'm':
            if len(steps) < 2 or steps[1] != ('f', 'second'): raise Oops('write to a key of a map')
            old = cur.vals.get(s[1])
            nv = v if len(steps) == 2 else self.put(st, old, steps[2:], v)
            return cur.with_vals(cur.vals.set(s[1], nv))
    def deref(self, st, p, k=0):
        """lvalue p[k] of a pointer value"""
        if isinstance(p, PtrIte):
            d = self.decide(st, p.c)
            if d is None: raise Oops('access through a conditional pointer')
            return self.deref(st, p.a if d else p.b, k)
        if p is UNINIT: self.oblige(st, 'uninitialised pointer', False); raise Dead()
        if isinstance(p, RIter):
            if not isinstance(p.base, Ptr): raise Oops('reverse iterator')
            return p.base.at(sub(neg(k), 1) if k else -1)
        if isinstance(p, MapIt):
            self.check_it(st, p)
            return p.lv.m(p.pos)
        if not isinstance(p, Ptr): raise Oops('dereference of %r' % (p,))
        if p.lv is None:
            self.oblige(st, 'null pointer', False); raise Dead()
        return p.at(k)
    def check_it(self, st, it):
        m = self.read(st, it.lv)
        if m.vid != it.vid: raise Oops('iterator of a modified map')
        return m
    # ---- sums
    def sum(self, k, e, n):
        """sum of e(k) for k = 0 .. n-1; e is a term over the schematic variable k"""
        if not isz(e):
            return mul(tr(n) if isreal(e) else n, e)
        params, memo = [], {}
        kn = k.decl().name()
        KV = z3.Int('k?')
        def go(x):
            i = x.get_id()
            if i in memo: return memo[i]
            if x.eq(k): r = KV
            elif z3.is_int_value(x) or z3.is_rational_value(x) or z3.is_true(x) or z3.is_false(x): r = x
            elif kn not in symbols(x):
                for p, c in params:
                    if p.eq(x): r = c; break
                else:
                    r = z3.Const('p%d?' % len(params), x.sort()); params.append((x, r))
            else:
                for c in x.children(): go(c)
                r = None
            memo[i] = r
            return r
        e = z3.simplify(e)
        go(e)
        b = z3.substitute(e, *([(p, c) for p, c in params] + [(k, KV)]))
        key = (b.sexpr(), str(b.sort()), tuple(str(c.sort()) for _, c in params))
        if key not in self.sumdef:
            nm = 'sum!%d' % len(self.sumdef)
            F = z3.Function(nm, *([c.sort() for _, c in params] + [z3.IntSort(), b.sort()]))
            self.sumdef[key] = (F, b, KV, [c for _, c in params])
            self.sums[nm] = self.sumdef[key]
        F = self.sumdef[key][0]
        return F(*([p for p, _ in params] + [tz(n)]))
    # ---- unsigned arithmetic
    def wrap(self, st, r, t):
        """result r of an operation in type t"""
        if t is None or t.k != 'int': return r
        sg, w = t.a
        if not isz(r):
            if sg:
                if w < 64 or True: return r
            return r % (1 << w)
        if sg: return r
        d = self.entails(st, r >= 0) if self.unsigned_risky(r) else True
        if d: return r
        return z3.If(r >= 0, r, r + (1 << w))
    def unsigned_risky(self, r):
        """false when r is a sum/product of terms that are syntactically non-negative"""
        return not nonneg(r)
    def convert(self, st, v, t):
        """conversion of a number to type t"""
        if t.k == 'real': return tr(v)
        if t.k == 'bool': return tobool(v)
        if t.k == 'int':
            if isreal(v):
                f = trunc(v)
                return f
            v = ti(v)
            sg, w = t.a
            if not isz(v):
                v &= (1 << w) - 1
                if sg and v >> (w - 1): v -= 1 << w
                return v
            if not sg:
                if nonneg(v) or self.entails(st, v >= 0): return v
                return z3.If(v >= 0, v, v + (1 << w))
            if w <= 32:
                # from 64-bit unsigned values: wrapped values come back
                x = unwrap(v)
                return x
            return v
        return v
    def div(self, st, a, b, t):
        a, b = ti(a), ti(b)
        self.oblige_c(st, 'division by zero', nt(eq(b, 0)))
        if not isz(a) and not isz(b):
            if b == 0: raise Dead()
            q = abs(a) // abs(b); q = q if (a >= 0) == (b >= 0) else -q
            return q, a - q * b
        if not isz(b) and b == 1: return a, 0
        a_, b_ = tz(a), tz(b)
        q, r = CDIV(a_, b_), CMOD(a_, b_)
        if not self.seen('div', q):
            self.add_fact(z3.Implies(b_ != 0, z3.And(a_ == b_ * q + r, z3.Implies(a_ >= 0, r >= 0), z3.Implies(a_ <= 0, r <= 0),
                          z3.Implies(b_ > 0, z3.And(r < b_, r > -b_)), z3.Implies(b_ < 0, z3.And(r < -b_, r > b_)),
                          z3.Implies(z3.And(a_ >= 0, b_ > 0), z3.And(q >= 0, q <= a_)))), 'div', hterm=(q, r))
        return q, r
    def rdiv(self, st, a, b):
        a, b = tr(a), tr(b)
        if not isz(a) and not isz(b):
            if b == 0: return self.declared_inf if a > 0 else -self.declared_inf if a < 0 else self.freal('nan')
            return a / b
        if not isz(b): return tz(a) / tz(b) if b != 0 else self.freal('nan')
        q = RDIV(tz(a), tz(b))
        if not self.seen('rdiv', q):
            self.add_fact(z3.Implies(tz(b) != 0, q * tz(b) == tz(a)), 'rdiv', hterm=q)
        return q

CDIV = z3.Function('cdiv', z3.IntSort(), z3.IntSort(), z3.IntSort())
CMOD = z3.Function('cmod', z3.IntSort(), z3.IntSort(), z3.IntSort())
RDIV = z3.Function('rdiv', z3.RealSort(), z3.RealSort(), z3.RealSort())
_symc = {}
def symbols(f):
    """names of the uninterpreted symbols of a term"""
    k = f.get_id()
    r = _symc.get(k)
    if r is not None: return r[1]
    out, seen, todo = set(), set(), [f]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED: out.add(d.name())
            todo.extend(x.children())
        elif z3.is_quantifier(x): todo.append(x.body())
    _symc[k] = (f, out)
    return out
def nonneg(x):
    """syntactically non-negative (unsigned variables are recognised by their range fact only)"""
    if not isz(x): return x >= 0
    if z3.is_app(x):
        k = x.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL): return all(nonneg(norm(c)) for c in x.children())
        if k == z3.Z3_OP_ITE: return nonneg(norm(x.arg(1))) and nonneg(norm(x.arg(2)))
    return False
def unwrap(v):
    """ite(r >= 0, r, r + 2^64) -> r when converted back to a signed type"""
    if isz(v) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        a, b = v.arg(1), v.arg(2)
        d = simp(b - a)
        if not isz(d) and d in (1 << 64, 1 << 32): return norm(a)
        return vite(norm(v.arg(0)), unwrap(norm(a)), unwrap(norm(b)))
    return v
def trunc(x):
    if not isz(x):
        import math
        return math.trunc(x)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL: return x.arg(0)
    s = z3.simplify(x)
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_TO_REAL: return s.arg(0)
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: return vite(norm(x.arg(0)), trunc(norm(x.arg(1))), trunc(norm(x.arg(2))))
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
