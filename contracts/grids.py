"""C18 and C19: grid generators."""
from engine.ded import unit
from engine.val import *
from engine.sym import *
from engine.lib import SIN, COS, PI

def grid_inputs(U):
    dims = U.array(2, 'int', 'dims')
    n0, n1 = U.elem(dims, 0), U.elem(dims, 1)
    U.assume(land(le(2, n0), le(2, n1)))
    N = mul(n0, n1)
    cx, cy = U.array(N, name='x', ro=False), U.array(N, name='y', ro=False)
    coords = U.values([cx, cy], T('ptr', T('real')), 'coords')
    i, j = U.int('i'), U.int('j')
    U.assume(land(le(0, i), lt(i, n0), le(0, j), lt(j, n1)))
    U.hint(i, j)
    k = add(mul(i, n1), j)
    U.lemma('the flat index of a node lies in the arrays', land(le(0, k), lt(k, N)))
    return dims, n0, n1, N, cx, cy, coords, i, j, k

@unit('C18 C22', 'rectangular grid', ms=20000)
def rect(U):
    dims, n0, n1, N, cx, cy, coords, i, j, k = grid_inputs(U)
    lo, hi = U.array(2, name='xmins'), U.array(2, name='xmaxs')
    U.call('createRectangularGrid', dims, lo, hi, coords)
    for d, (c, ij, n) in enumerate(((cx, i, n0), (cy, j, n1))):
        l, h = U.elem(lo, d), U.elem(hi, d)
        v = U.elem(c, k)
        U.prove('coordinate %d of node (i, j)' % d, eq(mul(sub(v, l), sub(tr(n), 1)), mul(sub(h, l), tr(ij))))
        U.prove('coordinate %d: arrays keep their size' % d, eq(U.arr(c).n, N))

@unit('C18 C22', 'polar grid', ms=20000)
def polar(U):
    dims, n0, n1, N, cx, cy, coords, i, j, k = grid_inputs(U)
    ce = U.array(2, name='center')
    R = U.real('radius')
    U.call('createPolarGrid', dims, ce, R, coords)
    r = add(U.elem(ce, 0), U.E.rdiv(U.st, mul(R, tr(i)), sub(tr(n0), 1)))
    t = add(U.elem(ce, 1), U.E.rdiv(U.st, mul(2 * PI, tr(j)), sub(tr(n1), 1)))
    U.prove('x of node (i, j)', eq(U.elem(cx, k), mul(r, COS(tz(t)))))
    U.prove('y of node (i, j)', eq(U.elem(cy, k), mul(r, SIN(tz(t)))))
