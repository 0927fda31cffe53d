"""C01 and C02: box and side iteration."""
from engine.ded import unit
from engine.val import *
from engine.sym import *

def prod(l):
    r = 1
    for x in l: r = mul(r, x)
    return r
def boxunit(nd):
    @unit('C01 C22', 'box iteration, %d axes' % nd, ms=20000, tier='quick' if nd <= 3 else 'thorough')
    def u(U):
        b, e = U.array(nd, 'int', 'begin'), U.array(nd, 'int', 'end')
        lo, hi = [U.elem(b, i) for i in range(nd)], [U.elem(e, i) for i in range(nd)]
        ext = [sub(h, l) for h, l in zip(hi, lo)]
        for x in ext: U.assume(lt(0, x))
        s = U.new('SgBoxIterator', nd, b, e)
        num = U.var(UNINIT)
        U.call('SgBoxIterator_getNumberOfElements', s, num)
        n = U.get(num)
        U.prove('the number of elements is the product of the extents', eq(n, prod(ext)))
        # an index set of the box -> flat index -> back
        x = U.array(nd, 'int', 'inds')
        xs = [U.elem(x, i) for i in range(nd)]
        for i in range(nd): U.assume(land(le(lo[i], xs[i]), lt(xs[i], hi[i])))
        ix = U.var(UNINIT)
        U.call('SgBoxIterator_getIndex', s, x, ix)
        k = U.get(ix)
        d = [sub(xs[i], lo[i]) for i in range(nd)]
        flat = 0
        for i in range(nd): flat = add(mul(flat, ext[i]), d[i])
        U.prove('the flat index is the row-major one, the last index fastest', eq(k, flat))
        # Horner bounds: 0 <= h_i < ext_0 ... ext_i
        h = 0; P = 1
        for i in range(nd):
            h = add(mul(h, ext[i]), d[i]); P = mul(P, ext[i])
            U.lemma('the flat index of %d axes is below the product of their extents' % (i + 1), land(le(0, h), lt(h, P), lt(0, P)))
        U.prove('the flat index lies in 0..count-1', land(le(0, k), lt(k, n)))
        out = U.array(nd, 'int', 'out', ro=False)
        # division facts of the row-major expansion
        U.radix(flat, d, ext)
        U.call('SgBoxIterator_getElement', s, flat, out)
        for i in range(nd): U.prove('index set -> flat index -> index set, axis %d' % i, eq(U.elem(out, i), xs[i]))
        # a flat index of the box -> index set -> back
        f = U.int('flat')
        U.assume(land(le(0, f), lt(f, prod(ext))))
        U.call('SgBoxIterator_getElement', s, f, out)
        y = [U.elem(out, i) for i in range(nd)]
        # digits of f
        q, r = f, []
        for i in range(nd - 1, -1, -1):
            q, m = U.E.div(U.st, q, ext[i], None); r.insert(0, m)
        U.digits(f, ext)
        for i in range(nd):
            U.prove('flat index -> index set in the box, axis %d' % i, land(le(lo[i], y[i]), lt(y[i], hi[i])))
        fl = 0
        for i in range(nd): fl = add(mul(fl, ext[i]), sub(y[i], lo[i]))
        U.prove('flat index -> index set is inverted by the row-major formula', eq(fl, f))
        x2 = U.values(y, 'int', 'y')
        U.call('SgBoxIterator_getIndex', s, x2, ix)
        U.prove('flat index -> index set -> flat index', eq(U.get(ix), f))
        U.call('SgBoxIterator_del', s)
        U.no_leak()
    return u
for nd in (1, 2, 3, 4): boxunit(nd)

def sideunit(nd):
    @unit('C02 C22', 'side iteration, %d axes' % nd)
    def u(U):
        total = 3 ** nd
        s = U.var(UNINIT, 'it')
        U.E.write(U.st, s.lv, UNINIT)
        obj = U.object('SgSideIterator_type', nd)
        n = U.method('SgSideIterator_type::getNumberOfElements', obj)
        U.prove('the number of elements is 3^n', eq(n, total))
        def check(tag, k):
            """the current side when k advances were made since the start"""
            g = U.method('SgSideIterator_type::get', obj)
            U.prove(tag + ': one entry per axis', eq(g.n, nd))
            flat = 0
            for i in range(nd):
                gi = g.get(i)
                U.prove(tag + ': entry %d is -1, 0 or 1' % i, land(le(-1, gi), le(gi, 1)))
                flat = add(mul(flat, 3), add(gi, 1))
            U.prove(tag + ': the combination is the one numbered by the position, so no two positions share one', eq(flat, k))
            return g
        check('after construction', 0)
        # any position, however it was reached: the invariant is index = number of advances
        k = U.int('k')
        U.assume(land(le(0, k), lt(k, total)))
        g0 = U.get(obj)
        inv = eq(g0.get('index'), 0)
        U.prove('construction starts at the first side', inv)
        U.set(obj, 'index', k)
        for j in range(1, nd): U.div(k, 3 ** j)
        check('any position', k)
        r = U.method('SgSideIterator_type::next', obj)
        U.prove('advancing moves by one position', eq(U.get(obj, 'index'), add(k, 1)))
        U.prove('the end is reported exactly after the last side', eq(tobool(r), le(total, add(k, 1))))
        # every combination has a position
        c = [U.int('c') for _ in range(nd)]
        flat = 0
        for x in c:
            U.assume(land(le(-1, x), le(x, 1))); flat = add(mul(flat, 3), add(x, 1))
        U.lemma('every combination has a position', land(le(0, flat), lt(flat, total)))
        U.set(obj, 'index', flat)
        g = U.method('SgSideIterator_type::get', obj)
        for i in range(nd): U.prove('the side at the position of a combination is that combination, axis %d' % i, eq(g.get(i), c[i]))
        U.method('SgSideIterator_type::reset', obj)
        check('after a reset', 0)
        U.prove('a reset leaves the number of elements', eq(U.method('SgSideIterator_type::getNumberOfElements', obj), total))
    return u
for nd in (1, 2, 3, 4, 5): sideunit(nd)
