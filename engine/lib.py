"""Assumed contracts of the library functions the code calls (libstdc++ containers and algorithms, libm, LAPACK)."""
import z3
from fractions import Fraction
from .cxx import T, ty, Unsupported, parse_type
from .val import *
from .val import S as simp
from .sym import *
from .exe import strip, NoLV, Exec

U = T('int', (False, 64))

def obj(E, st, n):
    """lvalue of the object expression of a member call or operator"""
    s = strip(n)
    try: return E.resolve(st, E.lv(st, s))
    except NoLV:
        v = E.ev(st, n)
        if isinstance(v, LV): return E.resolve(st, v)
        E.uid += 1
        tmp = ('t', E.uid); st.mem[tmp] = v
        return LV(tmp)

# ---------------------------------------------------------------- operators
def op_name(n):
    r = strip(n['inner'][0])
    while r.get('kind') in ('ImplicitCastExpr',): r = strip(r['inner'][0])
    return (r.get('referencedDecl') or {}).get('name', '?'), r.get('referencedDecl') or {}
def op_lv(E, st, n):
    nm, d = op_name(n)
    a = n['inner'][1:]
    if d.get('id') in E.p.byid and E.p.body_of(E.p.byid[d['id']]):
        r = user_op(E, st, d, a)
        if isinstance(r, LV): return r
        raise NoLV('value')
    t = ty(a[0])
    if nm == 'operator[]':
        o = obj(E, st, a[0])
        if t.k in ('vec', 'arr'):
            return o.i(E.ev(st, a[1]))
        if t.k == 'map':
            k = E.ev(st, a[1])
            p, found = map_find(E, st, o, k)
            if E.decide(st, found) is not True:
                m = E.read(st, o)
                m2, p = map_insert(E, st, m, p, found, k, E.default_init(m.vt))
                E.write(st, o, m2)
            return o.m(p).f('second')
        raise Oops('operator[] on ' + t.k)
    if nm == 'operator*':
        return E.deref(st, E.ev(st, a[0]))
    if nm == 'operator=':
        op_val(E, st, n); return E.lv(st, strip(a[0]))
    if nm in ('operator++', 'operator--') and len(a) == 1:
        op_val(E, st, n); return E.lv(st, strip(a[0]))
    if nm == 'operator<<' : raise NoLV('stream')
    if nm == 'operator+=':
        op_val(E, st, n); return E.lv(st, strip(a[0]))
    raise NoLV(nm)
def user_op(E, st, d, a):
    f = E.p.byid[d['id']]
    if f.get('_cls'):
        o = obj(E, st, a[0])
        return E.call(st, f, o, E.args(st, f, a[1:]))
    return E.call(st, f, None, E.args(st, f, a))
def op_val(E, st, n):
    nm, d = op_name(n)
    a = n['inner'][1:]
    if d.get('id') in E.p.byid and E.p.body_of(E.p.byid[d['id']]):
        return E.val(st, user_op(E, st, d, a))
    if nm == 'operator=' and E.p.byid.get(d.get('id')) is not None or (nm == 'operator=' and ty(a[0]).k in ('vec', 'map', 'set', 'pair', 'ptr', 'mapit', 'rec', 'real', 'riter')):
        v = E.init_value(st, ty(a[0]), a[1])
        lv = obj(E, st, a[0])
        E.write(st, lv, v)
        return v
    if nm in ('operator[]', 'operator*'):
        return E.read(st, op_lv(E, st, n))
    if nm == 'operator->':
        v = E.ev(st, a[0])
        if isinstance(v, MapIt):
            E.check_it(st, v)
            return Ptr(v.lv.m(v.pos))
        return v
    if nm in ('operator++', 'operator--'):
        lv = obj(E, st, a[0])
        v = E.read(st, lv)
        dl = 1 if nm == 'operator++' else -1
        if isinstance(v, Ptr): w = v.off(dl)
        elif isinstance(v, MapIt):
            m = E.check_it(st, v)
            if dl == 1: E.oblige_c(st, 'increment of an iterator at the end', lt(v.pos, m.n))
            w = MapIt(v.lv, add(v.pos, dl), v.vid)
        elif isinstance(v, RIter): w = RIter(v.base.off(-dl))
        else: raise Oops('increment of %r' % (v,))
        E.write(st, lv, w)
        return v if len(a) > 1 else w
    if nm in ('operator==', 'operator!='):
        x, y = E.ev(st, a[0]), E.ev(st, a[1])
        r = val_eq(E, st, x, y)
        return r if nm == 'operator==' else nt(r)
    if nm in ('operator<', 'operator>'):
        x, y = E.ev(st, a[0]), E.ev(st, a[1])
        return val_lt(E, x, y) if nm == 'operator<' else val_lt(E, y, x)
    if nm in ('operator+', 'operator-') and ty(a[0]).k == 'ptr':
        return E.ptrop(st, nm[-1], E.ev(st, a[0]), E.ev(st, a[1]))
    if nm == 'operator+=' and ty(a[0]).k == 'ptr':
        lv = obj(E, st, a[0]); v = E.ptrop(st, '+', E.read(st, lv), E.ev(st, a[1])); E.write(st, lv, v); return v
    if nm == 'operator<<': return UNINIT      # diagnostics on std::cerr
    raise Oops('operator ' + nm)
def val_eq(E, st, x, y):
    if isinstance(x, (Ptr, PtrIte)): return E.ptrop(st, '==', x, y)
    if isinstance(x, MapIt):
        if same_lv(x.lv, y.lv) is not True or x.vid != y.vid: raise Oops('iterators of two maps')
        return eq(x.pos, y.pos)
    if isinstance(x, Arr):
        if isz(x.n) or isz(y.n):
            raise Oops('comparison of vectors of unknown size')
        if x.n != y.n: return False
        return land(*[val_eq(E, st, x.get(i), y.get(i)) for i in range(x.n)])
    if isinstance(x, Rec): return land(*[val_eq(E, st, x.f[k], y.f[k]) for k in x.f])
    if isnum(x): return eq(x, y)
    raise Oops('comparison of %r' % (x,))
def val_lt(E, x, y):
    if isnum(x): return lt(x, y)
    if isinstance(x, Rec) and x.name == 'pair':
        return lor(val_lt(E, x.f['first'], y.f['first']), land(nt(val_lt(E, y.f['first'], x.f['first'])), val_lt(E, x.f['second'], y.f['second'])))
    if isinstance(x, Arr) and not isz(x.n) and not isz(y.n):
        r = x.n < y.n
        for i in reversed(range(min(x.n, y.n))):
            a, b = x.get(i), y.get(i)
            r = lor(val_lt(E, a, b), land(nt(val_lt(E, b, a)), r))
        return r
    raise Oops('order of %r' % (x,))

# ---------------------------------------------------------------- maps and sets
def sorted_facts(E, m):
    if not hasattr(E, '_sorted'): E._sorted = set()
    if m.vid in E._sorted or not isinstance(m.keys, AUF): return
    if m.kt.k not in ('int',): return
    E._sorted.add(m.vid)
    i, j = E.loop_sym('p'), E.loop_sym('p')
    E.add_fact(imp(land(le(0, i), lt(i, j), lt(j, m.n)), lt(m.keys.get(i), m.keys.get(j))), 'sorted')
def map_find(E, st, lv, k):
    """(position, found): position is the lower bound of k"""
    m = E.read(st, lv)
    if not isz(m.n) and m.n == 0: return 0, False
    sorted_facts(E, m)
    p = E.fint('pos'); found = E.fbool('found')
    kp = m.keys.get(p)
    E.assume(st, land(le(0, p), le(p, m.n)))
    E.assume(st, imp(found, land(lt(p, m.n), val_eq(E, st, kp, k))))
    km = m.keys.get(sub(p, 1))
    try:
        E.assume(st, imp(land(nt(found), lt(p, m.n)), val_lt(E, k, kp)))
        E.assume(st, imp(lt(0, p), val_lt(E, km, k)))
    except Oops: pass
    q = E.loop_sym('q')
    E.add_fact(imp(land(*st.pc), imp(land(nt(found), le(0, q), lt(q, m.n)), nt(val_eq(E, st, m.keys.get(q), k)))), 'notfound')
    E.index_term(p)
    return p, found
def map_insert(E, st, m, p, found, k, v):
    """(new map, position of k): the entry is added unless it is there"""
    d = E.decide(st, found)
    if d is True: return m, p
    kn = AInsert(m.keys, p, k) if not (not isz(m.n) and m.n == 0) else AList([k])
    vn = None
    if m.vals is not None: vn = AInsert(m.vals, p, v) if not (not isz(m.n) and m.n == 0) else AList([v])
    m2 = MapV(add(m.n, 1), kn, vn, m.kt, m.vt)
    if d is False: return m2, p
    r = MapV(vite(found, m.n, m2.n), mkaite(found, m.keys, m2.keys), mkaite(found, m.vals, m2.vals) if m.vals is not None else None, m.kt, m.vt)
    return r, p

# ---------------------------------------------------------------- member calls
def member_call(E, st, n):
    me = strip(n['inner'][0])
    a = n['inner'][1:]
    nm = me.get('name')
    b = me['inner'][0]
    did = me.get('referencedMemberDecl')
    f = E.p.byid.get(did)
    if f is not None and f.get('_q'):
        if me.get('isArrow'): this = E.deref(st, E.ev(st, b))
        else: this = obj(E, st, b)
        this = E.resolve(st, this)
        return E.call(st, f, this, E.args(st, f, a), n)
    t = ty(b)
    if me.get('isArrow'):
        lv = E.deref(st, E.ev(st, b)); t = t.a if t.k == 'ptr' else t
    else: lv = obj(E, st, b)
    a = [x for x in a if x.get('kind') != 'CXXDefaultArgExpr']
    if t.k == 'vec' or (t.k == 'ptr' and isinstance(E.read(st, lv), Arr)) or t.k == 'arr': return vec_call(E, st, nm, lv, a)
    if t.k in ('map', 'set'): return map_call(E, st, nm, lv, a, t)
    if t.k == 'str':
        from . import strs
        return strs.member(E, st, nm, lv, a)
    if t.k in ('opaque', 'rec'):
        return UNINIT
    raise Oops('%s on %s' % (nm, t.k))
def fill_default(E, et):
    return E.default_init(et) if et.k != 'rec' else E.default(et)
def resized(E, v, n, fill):
    if not isz(n) and not isz(v.n) and n <= 64 and (isinstance(v.node, AList) or v.n <= 64):
        l = [v.get(i) for i in range(min(v.n, n))]
        l += [fill] * (n - len(l))
        return Arr(n, AList(l), v.et)
    if not isz(v.n) and v.n == 0: return Arr(n, AConst(fill), v.et)
    if not isz(n) and n == 0: return Arr(0, AList([]), v.et)
    return Arr(n, AResize(v.node, v.n, fill), v.et)
def vec_call(E, st, nm, lv, a):
    if nm == 'size': return E.read(st, lv).n
    if nm == 'empty': return eq(E.read(st, lv).n, 0)
    if nm == 'resize' or nm == 'reserve':
        n = E.ev(st, a[0])
        if nm == 'reserve': return None
        v = E.read(st, lv)
        fill = E.ev(st, a[1]) if len(a) > 1 else fill_default(E, v.et)
        E.write(st, lv, resized(E, v, n, fill)); return None
    if nm == 'assign':
        v = E.read(st, lv)
        if len(a) == 2 and ty(a[0]).k == 'int':
            n, x = E.ev(st, a[0]), E.ev(st, a[1])
            E.write(st, lv, Arr(n, AList([x] * n) if not isz(n) and n <= 64 else AConst(x), v.et)); return None
        r = from_range(E, st, E.ev(st, a[0]), E.ev(st, a[1]), v.et)
        E.write(st, lv, r); return None
    if nm == 'clear': E.write(st, lv, Arr(0, AList([]), E.read(st, lv).et)); return None
    if nm in ('push_back', 'emplace_back'):
        x = E.ev(st, a[0])
        v = E.read(st, lv)
        if not isz(v.n) and isinstance(v.node, AList): E.write(st, lv, Arr(v.n + 1, AList(v.node.l + [x]), v.et))
        else: E.write(st, lv, Arr(add(v.n, 1), AStore(v.node, v.n, x), v.et))
        return None
    if nm == 'pop_back':
        v = E.read(st, lv)
        E.oblige_c(st, 'pop_back of an empty vector', lt(0, v.n))
        E.write(st, lv, Arr(sub(v.n, 1), AList(v.node.l[:-1]) if isinstance(v.node, AList) and v.node.l else v.node, v.et)); return None
    if nm == 'front' : return lv.i(0)
    if nm == 'back': return lv.i(sub(E.read(st, lv).n, 1))
    if nm == 'data' : return Ptr(lv, 0)
    if nm == 'at': return lv.i(E.ev(st, a[0]))
    if nm in ('begin', 'cbegin'): return Ptr(lv, 0)
    if nm in ('end', 'cend'): return Ptr(lv, E.read(st, lv).n)
    if nm == 'rbegin': return RIter(Ptr(lv, E.read(st, lv).n))
    if nm == 'rend': return RIter(Ptr(lv, 0))
    if nm == 'swap':
        o = obj(E, st, a[0]); x, y = E.read(st, lv), E.read(st, o); E.write(st, lv, y); E.write(st, o, x); return None
    raise Oops('vector::' + nm)
def map_call(E, st, nm, lv, a, t):
    if nm == 'size': return E.read(st, lv).n
    if nm == 'empty': return eq(E.read(st, lv).n, 0)
    if nm == 'clear': E.write(st, lv, E.default(t)); return None
    if nm in ('begin', 'cbegin'):
        m = E.read(st, lv); sorted_facts(E, m); return MapIt(lv, 0, m.vid)
    if nm in ('end', 'cend'):
        m = E.read(st, lv); return MapIt(lv, m.n, m.vid)
    if nm in ('find', 'count'):
        k = E.ev(st, a[0])
        p, found = map_find(E, st, lv, k)
        m = E.read(st, lv)
        if nm == 'count': return ti(found)
        return MapIt(lv, vite(found, p, m.n), m.vid)
    if nm in ('insert', 'emplace'):
        if nm == 'emplace' and len(a) == 2: k, v = E.ev(st, a[0]), E.ev(st, a[1])
        else:
            x = E.ev(st, a[0])
            if t.k == 'map': k, v = x.f['first'], x.f['second']
            else: k, v = x, None
        m = E.read(st, lv)
        p, found = map_find(E, st, lv, k)
        m2, p = map_insert(E, st, m, p, found, k, v)
        E.write(st, lv, m2)
        return Rec('pair', {'first': MapIt(lv, p, m2.vid), 'second': nt(found)})
    if nm == 'erase':
        x = E.ev(st, a[0])
        m = E.read(st, lv)
        if isinstance(x, MapIt):
            E.check_it(st, x)
            m2 = MapV(sub(m.n, 1), AErase(m.keys, x.pos), AErase(m.vals, x.pos) if m.vals is not None else None, m.kt, m.vt)
            E.write(st, lv, m2); return MapIt(lv, x.pos, m2.vid)
        p, found = map_find(E, st, lv, x)
        m2 = MapV(vite(found, sub(m.n, 1), m.n), mkaite(found, AErase(m.keys, p), m.keys), mkaite(found, AErase(m.vals, p), m.vals) if m.vals is not None else None, m.kt, m.vt)
        E.write(st, lv, m2); return vite(found, 1, 0)
    raise Oops('%s::%s' % (t.k, nm))
def from_range(E, st, b, e, et):
    if isinstance(b, RIter) and isinstance(e, RIter):
        n = sub(b.base.idx, e.base.idx)
        src = E.read(st, b.base.lv)
        if not isz(n) and n <= 64: return Arr(n, AList([src.get(sub(b.base.idx, i + 1)) for i in range(n)]), et)
        return Arr(n, ARev(src.node, sub(b.base.idx, 1)), et)
    if not (isinstance(b, Ptr) and isinstance(e, Ptr)): raise Oops('range of %r' % (b,))
    if b.lv is None: raise Oops('null range')
    if same_lv(b.lv, e.lv) is not True: raise Oops('range over two arrays')
    src = E.read(st, b.lv)
    n = simp(sub(e.idx, b.idx)) if b.idx is not None else None
    if n is None: raise Oops('range')
    E.oblige_c(st, 'range within the array', land(le(0, b.idx), le(b.idx, e.idx), le(e.idx, src.n) if src.n is not None else True))
    if not isz(n) and n <= 64: return Arr(n, AList([src.get(add(b.idx, i)) for i in range(n)]), et)
    return Arr(n, ASlice(src.node, b.idx), et)

# ---------------------------------------------------------------- constructors of library types
def ctor(E, st, t, n):
    a = [x for x in n.get('inner', []) if x.get('kind') != 'CXXDefaultArgExpr']
    if t.k == 'vec':
        if not a: return E.default(t)
        t0 = ty(a[0])
        if len(a) == 1 and t0.k == 'vec': return E.val(st, E.lv_or_val(st, a[0]))
        if t0.k == 'int':
            cnt = E.ev(st, a[0])
            x = E.ev(st, a[1]) if len(a) > 1 else fill_default(E, t.a)
            if isz(cnt) or cnt > 64: return Arr(cnt, AConst(x), t.a)
            return Arr(cnt, AList([x] * cnt), t.a)
        if len(a) == 2 and t0.k in ('ptr', 'arr', 'riter'):
            x, y = E.ev(st, a[0]), E.ev(st, a[1])
            return from_range(E, st, x, y, t.a)
        raise Oops('vector constructor')
    if t.k in ('map', 'set'):
        if not a: return E.default(t)
        if len(a) == 1 and ty(a[0]).k == t.k: return E.val(st, E.lv_or_val(st, a[0]))
        raise Oops('map constructor')
    if t.k == 'pair':
        if len(a) == 2: return Rec('pair', {'first': E.init_value(st, t.a, a[0]), 'second': E.init_value(st, t.b, a[1])})
        if len(a) == 1: return E.val(st, E.lv_or_val(st, a[0]))
        return E.default(t)
    if t.k in ('mapit', 'ptr', 'riter'):
        if len(a) == 1: return E.val(st, E.lv_or_val(st, a[0]))
        return UNINIT
    if t.k == 'str':
        from . import strs
        return strs.ctor(E, st, a)
    if t.k in ('real', 'int', 'bool'): return E.default_init(t)
    return UNINIT

# ---------------------------------------------------------------- free functions
R = z3.RealSort()
SIN, COS, TAN = (z3.Function(x, R, R) for x in ('sin', 'cos', 'tan'))
ATAN, ASIN, ACOS, SQRT = (z3.Function(x, R, R) for x in ('atan', 'asin', 'acos', 'sqrt'))
ATAN2, POW = (z3.Function(x, R, R, R) for x in ('atan2', 'pow'))
PI = Fraction('3.1415926535897931')   # the literal M_PI as the compiler reports it, taken as the exact constant
def once(E, x):
    return not E.seen('fn', x)
def sincos(E, x):
    """facts about sin and cos of x"""
    s, c = SIN(x), COS(x)
    if once(E, s):
        E.add_fact(z3.And(s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1), 'trig', hterm=(s, c))
        h = z3.RealVal(PI / 2)
        E.add_fact(z3.And(z3.Implies(z3.And(x >= -h, x <= h), c >= 0), z3.Implies(z3.And(x >= 0, x <= 2 * h), s >= 0), z3.Implies(z3.And(x <= 0, x >= -2 * h), s <= 0)), 'trig', hterm=(s, c))
    return s, c
def call_expr(E, st, n):
    r = strip(n['inner'][0])
    while r.get('kind') == 'ImplicitCastExpr': r = strip(r['inner'][0])
    d = r.get('referencedDecl') or {}
    nm = d.get('name', r.get('name', '?'))
    a = [x for x in n['inner'][1:] if x.get('kind') != 'CXXDefaultArgExpr']
    if d.get('id') in E.p.byid:
        f = E.p.byid[d['id']]
        if E.p.body_of(f) is not None:
            f = E.p.body_of(f)
            return E.call(st, f, None, E.args(st, f, n['inner'][1:]), n)
    E.assumed.add('library function ' + nm)
    if nm in ('dgels_', 'sgels_') or (len(a) == 11 and 'gels' in nm): return dgels(E, st, a)
    if nm in ('max', 'min') and len(a) == 2:
        x, y = E.ev(st, a[0]), E.ev(st, a[1])
        c = lt(x, y) if nm == 'max' else lt(y, x)
        if not isz(c): return y if c else x
        # x is returned when they are equal
        return vite(c, y, x)
    t = ty(n)
    if not a:
        if nm == 'infinity': return E.declared_inf
        if nm == 'epsilon': return Fraction(1, 1 << 52)
        if nm == 'max':
            if t.k == 'real': return DBLMAX
            return (1 << (t.a[1] - (1 if t.a[0] else 0))) - 1
        if nm in ('lowest', 'min') and t.k == 'real': return -DBLMAX if nm == 'lowest' else Fraction(1, 1 << 1022)
        if nm == 'min' : return -(1 << (t.a[1] - 1)) if t.a[0] else 0
    if nm == 'sort': return sort(E, st, a)
    if nm == 'make_pair':
        return Rec('pair', {'first': E.init_value(st, ty(a[0]), a[0]), 'second': E.init_value(st, ty(a[1]), a[1])})
    if nm == 'swap':
        x, y = obj(E, st, a[0]), obj(E, st, a[1]); vx, vy = E.read(st, x), E.read(st, y); E.write(st, x, vy); E.write(st, y, vx); return None
    if nm in ('move', 'forward'): return E.lv_or_val(st, a[0])
    from . import strs
    if nm in strs.FUN: return strs.FUN[nm](E, st, a)
    v = [E.ev(st, x) for x in a]
    if any(x is UNINIT for x in v): raise Oops('call of ' + nm)
    if nm in ('abs', 'fabs', 'labs'):
        x = v[0]
        if not isz(x): return abs(x)
        return vite(lt(x, 0), neg(x), x)
    if nm in ('floor', 'ceil', 'trunc', 'round'):
        x = tr(v[0])
        if not isz(x):
            import math
            return Fraction(getattr(math, nm)(x)) if nm != 'round' else Fraction(math.floor(abs(x) + Fraction(1, 2))) * (1 if x >= 0 else -1)
        if nm == 'floor': return z3.ToReal(z3.ToInt(x))
        if nm == 'ceil': return z3.ToReal(-z3.ToInt(-x))
        if nm == 'trunc': return z3.ToReal(tz(trunc(x)))
        raise Oops('round')
    if nm == 'pow':
        x, y = v
        if not isz(y) and Fraction(y).denominator == 1 and 0 <= y <= 64:
            r = Fraction(1) if not isz(x) else z3.RealVal(1)
            r = Fraction(1)
            for _ in range(int(y)): r = mul(r, tr(x))
            return r
        return POW(tz(tr(x)), tz(tr(y)))
    if nm == 'sqrt':
        x = tz(tr(v[0])); s = SQRT(x)
        if once(E, s): E.add_fact(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)), 'sqrt', hterm=s)
        return s
    if nm == 'fmod':
        x, y = tz(tr(v[0])), tz(tr(v[1]))
        q = z3.Function('fmodq', R, R, z3.IntSort())(x, y)
        r = z3.Function('fmod', R, R, R)(x, y)
        if once(E, r):
            E.add_fact(z3.Implies(y != 0, z3.And(x == y * z3.ToReal(q) + r, z3.Implies(x >= 0, r >= 0), z3.Implies(x <= 0, r <= 0), z3.Implies(y > 0, z3.And(r < y, r > -y)))), 'fmod', hterm=r)
        return r
    if nm in ('sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'atan2'):
        z = [tz(tr(x)) for x in v]
        if nm in ('sin', 'cos'):
            if not isz(v[0]) and v[0] == 0: return Fraction(0) if nm == 'sin' else Fraction(1)
            s, c = sincos(E, z[0])
            return s if nm == 'sin' else c
        f = {'tan': TAN, 'atan': ATAN, 'asin': ASIN, 'acos': ACOS, 'atan2': ATAN2}[nm](*z)
        if once(E, f):
            h = z3.RealVal(PI / 2)
            if nm in ('atan', 'asin'): E.add_fact(z3.And(f >= -h, f <= h), 'trig', hterm=f)
            if nm == 'acos': E.add_fact(z3.And(f >= 0, f <= 2 * h), 'trig', hterm=f)
            if nm == 'atan2': E.add_fact(z3.And(f >= -2 * h, f <= 2 * h, z3.Implies(z[1] >= 0, z3.And(f >= -h, f <= h))), 'trig', hterm=f)
        return f
    if nm in ('isnan', 'isinf'): return False
    if nm in ('isfinite',): return True
    raise Oops('call of ' + nm)
SORTN = [0]
def sort(E, st, a):
    b, e = E.ev(st, a[0]), E.ev(st, a[1])
    if not (isinstance(b, Ptr) and isinstance(e, Ptr) and same_lv(b.lv, e.lv) is True): raise Oops('sort')
    src = E.read(st, b.lv)
    n = simp(sub(e.idx, b.idx))
    cmpv = E.ev(st, a[2]) if len(a) > 2 else None
    if not isz(n) and n <= 3 and cmpv is None and not isz(b.idx):
        l = [src.get(add(b.idx, i)) for i in range(n)]
        for i in range(n):
            for j in range(n - 1 - i):
                c = val_lt(E, l[j + 1], l[j])
                l[j], l[j + 1] = vite(c, l[j + 1], l[j]), vite(c, l[j], l[j + 1])
        for i in range(n): src = src.set(add(b.idx, i), l[i])
        E.write(st, b.lv, src); return None
    if src.et.k not in ('int', 'real') or isz(b.idx) or b.idx != 0 or E.decide(st, eq(n, src.n)) is not True: raise Oops('sort')
    # a permutation of the elements, in order
    name = E.fresh_name('sorted')
    new = Arr(src.n, AUF(E.mk, src.et, name, tuple(E.loopvars)), src.et)
    perm = z3.Function(E.fresh_name('perm'), *([z3.IntSort()] * (len(E.loopvars) + 2)))
    inv = z3.Function(E.fresh_name('invp'), *([z3.IntSort()] * (len(E.loopvars) + 2)))
    lv = list(E.loopvars)
    i, j = E.loop_sym('s'), E.loop_sym('s')
    pc = land(*st.pc)
    rng = lambda x: land(le(0, x), lt(x, src.n))
    p = perm(*(lv + [i])); q = inv(*(lv + [i]))
    E.add_fact(imp(land(pc, rng(i)), land(rng(p), eq(new.get(i), src.get(p)), eq(inv(*(lv + [p])), i))), 'sort')
    E.add_fact(imp(land(pc, rng(i)), land(rng(q), eq(perm(*(lv + [q])), i), eq(src.get(i), new.get(q)))), 'sort')
    if cmpv is None:
        E.add_fact(imp(land(pc, rng(i), rng(j), lt(i, j)), le(new.get(i), new.get(j))), 'sort')
    else:
        if not isinstance(cmpv, Rec): raise Oops('sort order')
        E.uid += 1
        tmp = ('t', E.uid); st.mem[tmp] = cmpv
        ops = [f for f in E.p.fns.get(cmpv.name + '::operator()', []) if f['_body'] is not None]
        if not ops: raise Oops('sort order')
        E.approx += 1; E.loopvars += [i, j]
        try:
            s2 = st.copy(); s2.cond(rng(i)); s2.cond(rng(j))
            s2 = s2
            c = E.val(s2, E.call(s2, ops[0], LV(tmp), [new.get(j), new.get(i)]))
        finally: E.approx -= 1; del E.loopvars[-2:]
        E.add_fact(imp(land(pc, rng(i), rng(j), lt(i, j)), nt(c)), 'sort')
    E.permfns = getattr(E, 'permfns', []); E.permfns.append((perm, inv, lv, src.n))
    E.write(st, b.lv, new)
    return None

def dgels(E, st, a):
    """LAPACK dgels: argument legality is an obligation; the result is assumed"""
    p = [E.ev(st, x) for x in a]
    v = lambda k: E.read(st, E.deref(st, p[k]))
    tr_, m, n_, nrhs = v(0), v(1), v(2), v(3)
    lda, ldb, lwork = v(5), v(7), v(9)
    A, B, W = p[4], p[6], p[8]
    notr = eq(tr_, ord('N')); trans = lor(eq(tr_, ord('T')), eq(tr_, ord('t')))
    E.oblige_c(st, 'dgels: TRANS is N or T', lor(notr, eq(tr_, ord('n')), trans))
    E.oblige_c(st, 'dgels: dimensions', land(le(0, m), le(0, n_), le(0, nrhs)))
    mx = lambda x, y: vite(lt(x, y), y, x)
    mn = lambda x, y: vite(lt(y, x), y, x)
    E.oblige_c(st, 'dgels: LDA', le(mx(1, m), lda))
    E.oblige_c(st, 'dgels: LDB', land(le(mx(1, mx(m, n_)), ldb)))
    E.oblige_c(st, 'dgels: LWORK', le(mx(1, add(mn(m, n_), mx(mn(m, n_), nrhs))), lwork))
    arr = lambda q: E.read(st, q.lv)
    E.oblige_c(st, 'dgels: size of A', le(add(mul(lda, n_), A.idx), arr(A).n))
    E.oblige_c(st, 'dgels: size of B', le(add(mul(ldb, nrhs), B.idx), arr(B).n))
    E.oblige_c(st, 'dgels: size of WORK', le(add(lwork, W.idx), arr(W).n))
    oa, ob = arr(A), arr(B)
    info = E.fint('info')
    E.assume(st, le(0, info))       # legal arguments
    conc = not isz(m) and not isz(n_) and not isz(nrhs) and not isz(lda)
    if conc and nrhs == 1:
        t = E.decide(st, trans)
        if t is None: raise Oops('dgels TRANS')
        # op(A) as rows x cols: A is stored by columns with leading dimension lda
        ent = lambda i, j: oa.get(add(A.idx, i + j * lda))
        rows, cols = (n_, m) if t else (m, n_)
        op = (lambda i, j: ent(j, i)) if t else ent
        na = Arr(oa.n, AList([E.freal('gels') for _ in range(oa.n)]) if not isz(oa.n) and oa.n <= 64 else AUF(E.mk, T('real'), E.fresh_name('gels'), tuple(E.loopvars)), oa.et)
        xs = [E.freal('sol') for _ in range(max(m, n_))]
        rhs = [ob.get(add(B.idx, i)) for i in range(rows)]
        nb = ob
        for i in range(max(m, n_)): nb = nb.set(add(B.idx, i), xs[i])
        E.write(st, A.lv, na); E.write(st, B.lv, nb)
        if isinstance(arr(W).node, AList): E.write(st, W.lv, Arr(arr(W).n, AList([E.freal('work') for _ in range(len(arr(W).node.l))]), arr(W).et))
        else: E.write(st, W.lv, Arr(arr(W).n, AUF(E.mk, T('real'), E.fresh_name('work'), tuple(E.loopvars)), arr(W).et))
        if rows == cols:
            M = [[op(i, j) for j in range(cols)] for i in range(rows)]
            det = _det(M)
            zero = land(*[eq(x, Fraction(0)) for r in M for x in r])
            sol = land(*[eq(_sum(mul(M[i][j], xs[j]) for j in range(cols)), rhs[i]) for i in range(rows)])
            nz = nt(eq(det, Fraction(0)))
            E.assume(st, imp(nz, land(eq(info, 0), sol)), 'gels')
            E.assume(st, imp(land(nt(nz), nt(zero)), lt(0, info)), 'gels')
            E.assume(st, imp(zero, land(eq(info, 0), *[eq(x, Fraction(0)) for x in xs])), 'gels')
            # Cramer's rule, a consequence
            if cols == 2:
                E.assume(st, imp(nz, land(eq(mul(det, xs[0]), sub(mul(rhs[0], M[1][1]), mul(M[0][1], rhs[1]))), eq(mul(det, xs[1]), sub(mul(M[0][0], rhs[1]), mul(M[1][0], rhs[0]))))), 'gels')
        E.gels = dict(rows=rows, cols=cols, M=[[op(i, j) for j in range(cols)] for i in range(rows)], rhs=rhs, x=xs, info=info)
    else:
        E.write(st, A.lv, Arr(oa.n, AUF(E.mk, T('real'), E.fresh_name('gels'), tuple(E.loopvars)), oa.et))
        E.write(st, B.lv, Arr(ob.n, AUF(E.mk, T('real'), E.fresh_name('sol'), tuple(E.loopvars)), ob.et))
        E.write(st, W.lv, Arr(arr(W).n, AUF(E.mk, T('real'), E.fresh_name('work'), tuple(E.loopvars)), arr(W).et))
        E.gels = dict(trans=trans, m=m, n=n_, oa=oa, ob=ob, info=info)
    E.write(st, E.deref(st, p[10]), info)
    return None
def _sum(it):
    r = Fraction(0)
    for x in it: r = add(r, x)
    return r
def _det(M):
    n = len(M)
    if n == 1: return M[0][0]
    r = Fraction(0)
    for j in range(n):
        mnr = [[M[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = mul(M[0][j], _det(mnr))
        r = add(r, t) if j % 2 == 0 else sub(r, t)
    return r
