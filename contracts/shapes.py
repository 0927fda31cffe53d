"""C21: lines, triangles and tetrahedra."""
from engine.ded import unit
from engine.val import *
from engine.sym import *

EDGES = {'SgTriangle': [(0, 1), (1, 2), (2, 0)], 'SgTetrahedron': [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]}
def shape(cls, npts):
    @unit('C21 C22', cls)
    def u(U):
        pts = [U.array(3, name='p%d' % i) for i in range(npts)]
        s = U.new(cls, *pts)
        num = U.var(UNINIT)
        U.call(cls + '_getNumberOfPoints', s, num)
        U.prove('number of points', eq(U.get(num), npts))
        for i in range(npts):
            p = U.var(UNINIT)
            U.call(cls + '_getPoint', s, i, p)
            q = U.get(p)
            for j in range(3): U.prove('point %d is the given one, component %d' % (i, j), eq(U.elem(q, j), U.elem(pts[i], j)))
            U.prove('point %d has three components' % i, eq(U.arr(q).n, 3))
        if cls in EDGES:
            U.call(cls + '_getNumberOfEdges', s, num)
            ne = U.get(num)
            U.prove('number of edges', eq(ne, len(EDGES[cls])))
            es = []
            for i in range(len(EDGES[cls])):
                p = U.var(UNINIT)
                U.call(cls + '_getEdge', s, i, p)
                q = U.get(p)
                es.append((U.elem(q, 0), U.elem(q, 1)))
            if cls == 'SgTriangle':
                for i, (a, b) in enumerate(es): U.prove('edge %d goes from vertex to vertex' % i, land(le(0, a), lt(a, 3), le(0, b), lt(b, 3), nt(eq(a, b))))
                for i in range(3): U.prove('edges go round: edge %d ends where the next one starts' % i, eq(es[i][1], es[(i + 1) % 3][0]))
                U.prove('the three sides are distinct', land(nt(eq(es[0][0], es[1][0])), nt(eq(es[1][0], es[2][0])), nt(eq(es[0][0], es[2][0]))))
            else:
                for x in range(4):
                    for y in range(x + 1, 4):
                        U.prove('the pair %d, %d is an edge' % (x, y), lor(*[lor(land(eq(a, x), eq(b, y)), land(eq(a, y), eq(b, x))) for a, b in es]))
        if cls == 'SgTetrahedron':
            U.call(cls + '_getNumberOfFaces', s, num)
            U.prove('number of faces', eq(U.get(num), 4))
            fs = []
            for i in range(4):
                p = U.var(UNINIT)
                U.call(cls + '_getFace', s, i, p)
                q = U.get(p)
                fs.append([U.elem(q, k) for k in range(3)])
            for omit in range(4):
                tri = [x for x in range(4) if x != omit]
                U.prove('the triple %s is a face' % tri, lor(*[land(*[lor(*[eq(v, x) for v in f]) for x in tri]) for f in fs]))
        U.call(cls + '_del', s)
        U.no_leak()
    return u
shape('SgLine', 2)
shape('SgTriangle', 3)
shape('SgTetrahedron', 4)
