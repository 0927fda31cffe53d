"""Values of the symbolic semantics: numbers, records, arrays, maps, pointers."""
import z3
from fractions import Fraction
from .cxx import T, Unsupported

class Oops(Unsupported): pass
def isz(x): return isinstance(x, z3.ExprRef)
def isbool(x): return isinstance(x, bool) or (isz(x) and z3.is_bool(x))
def isreal(x): return isinstance(x, Fraction) or (isz(x) and z3.is_real(x))
def isint(x): return (isinstance(x, int) and not isinstance(x, bool)) or (isz(x) and z3.is_int(x))
def isnum(x): return isinstance(x, (int, Fraction, bool)) or isz(x)
def tz(x):
    """as a z3 term"""
    if isz(x): return x
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Fraction): return z3.RealVal(x)
    raise Oops('not a number: %r' % (x,))
def tr(x):
    """as a real"""
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int): return Fraction(x)
    if isz(x) and z3.is_bool(x): return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if isz(x) and z3.is_int(x):
        if z3.is_int_value(x): return Fraction(x.as_long())
        return z3.ToReal(x)
    return x
def ti(x):
    if isinstance(x, bool): return int(x)
    if isz(x) and z3.is_bool(x): return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x
def norm(x):
    if isz(x):
        if z3.is_int_value(x): return x.as_long()
        if z3.is_rational_value(x): return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x): return True
        if z3.is_false(x): return False
    return x
def S(x): return norm(z3.simplify(x)) if isz(x) else x
def co(a, b):
    if isreal(a) or isreal(b): return tr(a), tr(b)
    return ti(a), ti(b)
def add(a, b):
    a, b = co(a, b)
    if not isz(a) and not isz(b): return a + b
    if not isz(a) and a == 0: return b
    if not isz(b) and b == 0: return a
    return tz(a) + tz(b)
def sub(a, b):
    a, b = co(a, b)
    if not isz(a) and not isz(b): return a - b
    if not isz(b) and b == 0: return a
    if isz(a) and isz(b) and a.eq(b): return Fraction(0) if isreal(a) else 0
    r = tz(a) - tz(b)
    if isz(a) and isint(a):
        s = z3.simplify(r)
        if z3.is_int_value(s): return s.as_long()
    return r
def mul(a, b):
    a, b = co(a, b)
    if not isz(a) and not isz(b): return a * b
    for x, y in ((a, b), (b, a)):
        if not isz(x):
            if x == 0: return x
            if x == 1: return y
    return tz(a) * tz(b)
def neg(a):
    a = ti(a)
    return -a
def eq(a, b):
    if isbool(a) and isbool(b):
        if not isz(a) and not isz(b): return a == b
        return tz(a) == tz(b)
    a, b = co(a, b)
    if not isz(a) and not isz(b): return a == b
    if isz(a) and isz(b) and a.eq(b): return True
    if isint(a):
        d = z3.simplify(tz(a) - tz(b))
        if z3.is_int_value(d): return d.as_long() == 0
    return tz(a) == tz(b)
def lt(a, b):
    a, b = co(a, b)
    if not isz(a) and not isz(b): return a < b
    if isz(a) and isz(b) and a.eq(b): return False
    d = z3.simplify(tz(a) - tz(b))
    if z3.is_int_value(d) or z3.is_rational_value(d): return norm(d) < 0
    return tz(a) < tz(b)
def le(a, b):
    a, b = co(a, b)
    if not isz(a) and not isz(b): return a <= b
    if isz(a) and isz(b) and a.eq(b): return True
    d = z3.simplify(tz(a) - tz(b))
    if z3.is_int_value(d) or z3.is_rational_value(d): return norm(d) <= 0
    return tz(a) <= tz(b)
def nt(a):
    if isz(a): return z3.Not(a) if not z3.is_not(a) else norm(a.arg(0))
    return not a
def land(*xs):
    out = []
    for x in xs:
        if isz(x):
            x = norm(x)
        if x is False: return False
        if x is True: continue
        out.append(x)
    return True if not out else out[0] if len(out) == 1 else z3.And(out)
def lor(*xs):
    out = []
    for x in xs:
        if isz(x): x = norm(x)
        if x is True: return True
        if x is False: continue
        out.append(x)
    return False if not out else out[0] if len(out) == 1 else z3.Or(out)
def imp(a, b): return lor(nt(a), b)
def iff(a, b): return eq(a, b)
def tobool(x):
    if isbool(x): return x
    if isz(x) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(x.arg(1)) and z3.is_int_value(x.arg(2)):
        a, b = x.arg(1).as_long() != 0, x.arg(2).as_long() != 0
        return a if a == b else norm(x.arg(0)) if a else nt(norm(x.arg(0)))
    if isnum(x): return nt(eq(x, 0))
    if isinstance(x, Ptr): return x.nonnull()
    raise Oops('not a truth value')

# ---- composite values
class Rec:
    __slots__ = ('name', 'f')
    def __init__(self, name, f): self.name, self.f = name, f
    def get(self, n):
        if n not in self.f: raise Oops('field %s of %s' % (n, self.name))
        return self.f[n]
    def set(self, n, v): d = dict(self.f); d[n] = v; return Rec(self.name, d)
    def __repr__(self): return '%s%r' % (self.name, self.f)
class LV:
    """an object: a root and a path of fields ('f',n), elements ('i',k), map entries ('m',p)"""
    __slots__ = ('root', 'steps')
    def __init__(self, root, steps=()): self.root, self.steps = root, tuple(steps)
    def f(self, n): return LV(self.root, self.steps + (('f', n),))
    def i(self, k): return LV(self.root, self.steps + (('i', k),))
    def m(self, p): return LV(self.root, self.steps + (('m', p),))
    def __repr__(self): return '%s%s' % (self.root, ''.join('.%s' % (s[1],) if s[0] == 'f' else '[%s]' % (s[1],) for s in self.steps))
def same_lv(a, b):
    """True / False / condition"""
    if a.root != b.root or len(a.steps) != len(b.steps): return False
    c = True
    for x, y in zip(a.steps, b.steps):
        if x[0] != y[0]: return False
        if x[0] == 'f':
            if x[1] != y[1]: return False
        else: c = land(c, eq(x[1], y[1]))
    return c
class Ptr:
    __slots__ = ('lv', 'idx')
    def __init__(self, lv, idx=None): self.lv, self.idx = lv, idx
    def nonnull(self): return self.lv is not None
    def deref(self):
        if self.lv is None: raise NullDeref()
        return self.lv if self.idx is None else self.lv.i(self.idx)
    def at(self, k):
        if self.lv is None: raise NullDeref()
        if self.idx is None:
            if k == 0 and not isz(k): return self.lv
            raise Oops('pointer arithmetic on a single object')
        return self.lv.i(add(self.idx, k))
    def off(self, k):
        if not isz(k) and k == 0: return self
        if self.lv is None: raise NullDeref()
        if self.idx is None: raise Oops('pointer arithmetic on a single object')
        return Ptr(self.lv, add(self.idx, k))
    def __repr__(self): return 'NULL' if self.lv is None else '&%r+%r' % (self.lv, self.idx)
class PtrIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def nonnull(self): return lor(land(self.c, self.a.nonnull()), land(nt(self.c), self.b.nonnull()))
    def __repr__(self): return 'ite(%s,%r,%r)' % (self.c, self.a, self.b)
class NullDeref(Unsupported): pass
class RefVal:
    __slots__ = ('lv',)
    def __init__(self, lv): self.lv = lv
class RIter:
    """reverse iterator: refers to the element before base"""
    __slots__ = ('base',)
    def __init__(self, base): self.base = base
class MapIt:
    __slots__ = ('lv', 'pos', 'vid')
    def __init__(self, lv, pos, vid): self.lv, self.pos, self.vid = lv, pos, vid
class FnVal:
    __slots__ = ('d',)
    def __init__(self, d): self.d = d
class Uninit:
    pass
UNINIT = Uninit()
NULL = Ptr(None)

class MapV:
    """sorted map (or set: vals None): n entries, keys and vals by position"""
    __slots__ = ('n', 'keys', 'vals', 'kt', 'vt', 'vid')
    cnt = 0
    def __init__(self, n, keys, vals, kt, vt):
        MapV.cnt += 1
        self.n, self.keys, self.vals, self.kt, self.vt, self.vid = n, keys, vals, kt, vt, MapV.cnt
    def with_vals(self, vals):
        m = MapV(self.n, self.keys, vals, self.kt, self.vt); m.vid = self.vid; return m

class Arr:
    __slots__ = ('n', 'node', 'et')
    def __init__(self, n, node, et): self.n, self.node, self.et = n, node, et
    def get(self, i): return self.node.get(i)
    def set(self, i, v): return Arr(self.n, self.node.set(i, v), self.et)
    def __repr__(self): return 'Arr(%s,%s)' % (self.n, type(self.node).__name__)

class Node:
    def set(self, i, v): return AStore(self, i, v)
class AList(Node):
    __slots__ = ('l',)
    def __init__(self, l): self.l = list(l)
    def get(self, i):
        i = S(i)
        if not isz(i):
            if 0 <= i < len(self.l): return self.l[i]
            return self.l[-1] if self.l else UNINIT   # out of bounds: reported by the bounds obligation
        if not self.l: return UNINIT
        v = self.l[-1]
        for k in range(len(self.l) - 2, -1, -1): v = vite(eq(i, k), self.l[k], v)
        return v
    def set(self, i, v):
        i = S(i)
        l = list(self.l)
        if not isz(i):
            if 0 <= i < len(l): l[i] = v
        else:
            for k in range(len(l)): l[k] = vite(eq(i, k), v, l[k])
        return AList(l)
    def sub(self, m): return AList([vsub(x, m) for x in self.l])
class AUF(Node):
    """unknown contents: uninterpreted functions of the prefix and the index"""
    def __init__(self, mk, et, name, pre=()): self.mk, self.et, self.name, self.pre = mk, et, name, tuple(pre)
    def get(self, i): return self.mk(self.et, self.name, self.pre + (i,))
    def sub(self, m): return AUF(self.mk, self.et, self.name, tuple(nsub(x, m) for x in self.pre))
class AStore(Node):
    def __init__(self, prev, i, v): self.prev, self.i, self.v = prev, i, v
    def get(self, i):
        c = eq(self.i, i)
        if c is True: return self.v
        if c is False: return self.prev.get(i)
        return vite(c, self.v, self.prev.get(i))
    def set(self, i, v):
        if eq(self.i, i) is True: return AStore(self.prev, i, v)
        return AStore(self, i, v)
    def sub(self, m): return AStore(self.prev.sub(m), nsub(self.i, m), vsub(self.v, m))
class AIte(Node):
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def get(self, i): return vite(self.c, self.a.get(i), self.b.get(i))
    def sub(self, m): return mkaite(nsub(self.c, m), self.a.sub(m), self.b.sub(m))
def mkaite(c, a, b):
    c = norm(c)
    if c is True or a is b: return a
    if c is False: return b
    if isinstance(a, AList) and isinstance(b, AList) and len(a.l) == len(b.l): return AList([vite(c, x, y) for x, y in zip(a.l, b.l)])
    if isinstance(a, AStore) and isinstance(b, AStore) and a.prev is b.prev and eq(a.i, b.i) is True: return AStore(a.prev, a.i, vite(c, a.v, b.v))
    return AIte(c, a, b)
class AConst(Node):
    def __init__(self, v): self.v = v
    def get(self, i): return self.v
    def sub(self, m): return AConst(vsub(self.v, m))
class AResize(Node):
    def __init__(self, prev, n, v): self.prev, self.n, self.v = prev, n, v
    def get(self, i):
        c = lt(i, self.n)
        return vite(c, self.prev.get(i), self.v)
    def sub(self, m): return AResize(self.prev.sub(m), nsub(self.n, m), vsub(self.v, m))
class ASlice(Node):
    def __init__(self, prev, off): self.prev, self.off = prev, off
    def get(self, i): return self.prev.get(add(self.off, i))
    def sub(self, m): return ASlice(self.prev.sub(m), nsub(self.off, m))
class ARev(Node):
    def __init__(self, prev, last): self.prev, self.last = prev, last
    def get(self, i): return self.prev.get(sub(self.last, i))
    def sub(self, m): return ARev(self.prev.sub(m), nsub(self.last, m))
class AInsert(Node):
    def __init__(self, prev, p, v): self.prev, self.p, self.v = prev, p, v
    def get(self, i):
        c1, c2 = lt(i, self.p), eq(i, self.p)
        if c1 is True: return self.prev.get(i)
        if c2 is True: return self.v
        r = vite(c2, self.v, self.prev.get(sub(i, 1)))
        return r if c1 is False else vite(c1, self.prev.get(i), r)
    def sub(self, m): return AInsert(self.prev.sub(m), nsub(self.p, m), vsub(self.v, m))
class AErase(Node):
    def __init__(self, prev, p): self.prev, self.p = prev, p
    def get(self, i): return vite(lt(i, self.p), self.prev.get(i), self.prev.get(add(i, 1)))
    def sub(self, m): return AErase(self.prev.sub(m), nsub(self.p, m))
class AGen(Node):
    """contents of an array at the generic iteration of a loop"""
    def __init__(self, eng, et, key, pre): self.eng, self.et, self.key, self.pre = eng, et, key, tuple(pre)
    def get(self, i):
        v = self.eng.mk(self.et, self.key, self.pre + (i,))
        return v
    def sub(self, m): return AGen(self.eng, self.et, self.key, tuple(nsub(x, m) for x in self.pre))
class AOver(Node):
    """generic array with one loop invariant cell promoted to a scalar"""
    pass

def nsub(x, m):
    if not isz(x): return x
    return norm(z3.substitute(x, *m))
def vsub(v, m):
    if isz(v): return norm(z3.substitute(v, *m))
    if v is None or isinstance(v, (int, Fraction, bool, Uninit, FnVal, str)): return v
    if isinstance(v, Rec): return Rec(v.name, {k: vsub(x, m) for k, x in v.f.items()})
    if isinstance(v, Arr): return Arr(nsub(v.n, m), v.node.sub(m), v.et)
    if isinstance(v, Ptr): return v if v.lv is None else Ptr(lvsub(v.lv, m), nsub(v.idx, m) if v.idx is not None else None)
    if isinstance(v, PtrIte): return vite(nsub(v.c, m), vsub(v.a, m), vsub(v.b, m))
    if isinstance(v, RefVal): return RefVal(lvsub(v.lv, m))
    if isinstance(v, RIter): return RIter(vsub(v.base, m))
    if isinstance(v, MapIt): return MapIt(lvsub(v.lv, m), nsub(v.pos, m), v.vid)
    if isinstance(v, MapV):
        r = MapV(nsub(v.n, m), v.keys.sub(m), v.vals.sub(m) if v.vals is not None else None, v.kt, v.vt); r.vid = v.vid; return r
    if hasattr(v, 'sub'): return v.sub(m)
    raise Oops('substitution in %r' % (v,))
def lvsub(lv, m): return LV(lv.root, tuple(s if s[0] == 'f' else (s[0], nsub(s[1], m)) for s in lv.steps))

def vite(c, a, b):
    if isz(c): c = norm(c)
    if c is True or a is b: return a
    if c is False: return b
    if a is UNINIT: return b
    if b is UNINIT: return a
    if isnum(a) and isnum(b):
        if isbool(a) and isbool(b):
            if not isz(a) and not isz(b) and a == b: return a
            return norm(z3.If(c, tz(a), tz(b)))
        a, b = co(a, b)
        if not isz(a) and not isz(b) and a == b: return a
        if isz(a) and isz(b) and a.eq(b): return a
        return z3.If(c, tz(a), tz(b))
    if isinstance(a, Rec) and isinstance(b, Rec) and a.f.keys() == b.f.keys():
        return Rec(a.name, {k: vite(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Arr) and isinstance(b, Arr):
        return Arr(vite(c, a.n, b.n), mkaite(c, a.node, b.node), a.et)
    if isinstance(a, (Ptr, PtrIte)) and isinstance(b, (Ptr, PtrIte)):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.lv is None and b.lv is None: return a
            if a.lv is not None and b.lv is not None and (a.idx is None) == (b.idx is None) and same_lv(a.lv, b.lv) is True:
                return a if a.idx is None else Ptr(a.lv, vite(c, a.idx, b.idx))
        return PtrIte(c, a, b)
    if isinstance(a, RefVal) and isinstance(b, RefVal) and same_lv(a.lv, b.lv) is True: return a
    if isinstance(a, MapIt) and isinstance(b, MapIt) and same_lv(a.lv, b.lv) is True:
        return MapIt(a.lv, vite(c, a.pos, b.pos), a.vid if a.vid == b.vid else -1)
    if isinstance(a, MapV) and isinstance(b, MapV):
        if a.vid == b.vid and a.n is b.n and a.keys is b.keys:
            return a.with_vals(mkaite(c, a.vals, b.vals) if a.vals is not None else None)
        return MapV(vite(c, a.n, b.n), mkaite(c, a.keys, b.keys), mkaite(c, a.vals, b.vals) if a.vals is not None else None, a.kt, a.vt)
    if hasattr(a, 'ite') and type(a) is type(b): return a.ite(c, b)
    raise Oops('cannot merge %r and %r' % (a, b))
def same(a, b):
    """syntactic equality of values (sound 'unchanged' test)"""
    if a is b: return True
    if isnum(a) and isnum(b):
        if isz(a) and isz(b): return a.eq(b)
        if isz(a) or isz(b): return False
        return type(a) is type(b) and a == b
    if type(a) is not type(b): return False
    if isinstance(a, Rec): return a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Arr): return same(a.n, b.n) and samenode(a.node, b.node)
    if isinstance(a, Ptr):
        if a.lv is None or b.lv is None: return a.lv is b.lv
        return same_lv(a.lv, b.lv) is True and same(a.idx, b.idx)
    if isinstance(a, RefVal): return same_lv(a.lv, b.lv) is True
    if isinstance(a, MapIt): return same_lv(a.lv, b.lv) is True and same(a.pos, b.pos)
    if isinstance(a, MapV): return a.vid == b.vid and a.vals is b.vals
    if isinstance(a, FnVal): return a.d is b.d
    if isinstance(a, PtrIte): return same(a.c, b.c) and same(a.a, b.a) and same(a.b, b.b)
    if hasattr(a, 'same'): return a.same(b)
    return a == b
def samenode(a, b):
    if a is b: return True
    if isinstance(a, AGen) and isinstance(b, AGen): return a.key == b.key and len(a.pre) == len(b.pre) and all(eq(x, y) is True for x, y in zip(a.pre, b.pre))
    if isinstance(a, AList) and isinstance(b, AList): return len(a.l) == len(b.l) and all(same(x, y) for x, y in zip(a.l, b.l))
    return False
