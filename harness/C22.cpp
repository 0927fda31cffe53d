// life cycles under the address sanitizer, with every allocation made by the library accounted for
#include "flow.h"
#include "fp.h"
#include "SgFindOverlappingCells2D.h"
#include "SgLinearSolve.h"
#include "SgOctreePoints.h"
#include "SgTripolarGrid.h"
#include "SgBoxIterator.h"
#include "SgSideIterator.h"
#include "SgTriangulate.h"
#include "SgLine.h"
#include "SgTriangle.h"
#include "SgTetrahedron.h"
#include "createGrids2D.h"
#include "CmdLineArgParser.h"
#include <new>
static long live = 0;
static void* get(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); ++live; return p; }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { if (p) { --live; free(p); } }
void operator delete[](void* p) noexcept { if (p) { --live; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { --live; free(p); } }
void operator delete[](void* p, size_t) noexcept { if (p) { --live; free(p); } }
static void run(int kind, Rng& g) {
    Grid s = makeGrid(g, 5, .2, g.i(0, 3)), d = makeGrid(g, 5, .2, g.i(0, 3)); int hist = g.i(0, 7); std::vector<double> f1(std::max(s.n(), s.nc())), seg; for (auto& v : f1) v = g.u(); for (int i = 0; i < 4; ++i) seg.push_back(g.u(-2, 2));
    long before = live;
    switch (kind) {
    case 0: { SgConserveInterp2D_type* o = 0; SgConserveInterp2D_new(&o); for (int r = 0; r < (hist & 3); ++r) { setSrc(o, s); if (g.b()) setSrc(o, s); setDst(o, d); if (hist & 4) { SgConserveInterp2D_computeWeights(&o); Buf<double> in(s.nc()), out(d.nc()); for (auto& v : in) v = 1; SgConserveInterp2D_apply(&o, in.p, out.p); SgConserveInterp2D_reset(&o); } std::swap(s, d); } SgConserveInterp2D_del(&o); break; }
    case 1: { SgNodeInterp2D_type* o = 0; SgNodeInterp2D_new(&o, 20, 1e-8); for (int r = 0; r < (hist & 3); ++r) { setSrc(o, s, g.b(), 0); if (g.b()) setSrc(o, s); setDst(o, d); if (hist & 4) { SgNodeInterp2D_computeWeights(&o); Buf<double> in(s.n()), out(d.n()); for (auto& v : in) v = 1; SgNodeInterp2D_apply(&o, in.p, out.p); } std::swap(s, d); } SgNodeInterp2D_del(&o); break; }
    case 2: { SgFlowInterp2D_type* o = 0; SgFlowInterp2D_new(&o); for (int r = 0; r < (hist & 3); ++r) { Line l = randLine(g, s, g.i(1, 4), -.2, 1.2); setSrc(o, s); if (g.b()) setSrc(o, s); setDst(o, l); if (hist & 4) { SgFlowInterp2D_computeWeights(&o); Buf<double> a((s.dims[0]-1)*s.dims[1]), b(s.dims[0]*(s.dims[1]-1)), out(l.x.size()-1); for (auto& v : a) v = 1; for (auto& v : b) v = 1; const double* p[2] = {a.p, b.p}; SgFlowInterp2D_apply(&o, p, out.p); } std::swap(s, d); } SgFlowInterp2D_del(&o); break; }
    case 3: { SgFindPointInCell_type* o = 0; SgFindPointInCell_new(&o, 10, 1e-8); for (int r = 0; r < (hist & 3); ++r) { int nd = g.i(1, 3); NGrid G = randN(g, nd, 4, false, 1); std::vector<int> per(nd, g.b(3)); setGrid(o, G, per); if (hist & 4) { Buf<double> a(nd), x(nd), p(nd); for (int i = 0; i < nd; ++i) { a[i] = g.u(0, G.dims[i]-1); x[i] = g.u(-3, 3); } SgFindPointInCell_reset(&o, a.p, x.p); int k = 0; while (k++ < 50 && SgFindPointInCell_next(&o) == 0); SgFindPointInCell_getPosition(&o, p.p); SgFindPointInCell_getIndices(&o, p.p); double e; SgFindPointInCell_getError(&o, &e); } } SgFindPointInCell_del(&o); break; }
    case 4: { SgQuadIntersect_type* o = 0; SgQuadIntersect_new(&o); for (int r = 0; r < (hist & 3); ++r) { Buf<double> A(flat(s.cell(0))), B(flat(d.cell(0))); SgQuadIntersect_setQuadPoints(&o, A.p, B.p); int n; double* p; SgQuadIntersect_getIntersectPoints(&o, &n, &p); double t = 0; for (int i = 0; i < 2*n; ++i) t += p[i]; (void) t; } SgQuadIntersect_del(&o); break; }
    case 5: { SgQuadLineIntersect_type* o = 0; SgQuadLineIntersect_new(&o); for (int r = 0; r < (hist & 3); ++r) { Buf<double> A(flat(s.cell(0))), B(seg); SgQuadLineIntersect_setQuadPoints(&o, A.p); SgQuadLineIntersect_setLinePoints(&o, B.p); int n; double* p; SgQuadLineIntersect_collectIntersectPoints(&o, &n, &p); double t = 0; for (int i = 0; i < 2*n; ++i) t += p[i]; (void) t; } SgQuadLineIntersect_del(&o); break; }
    case 6: { SgQuadLineFlows_type* o = 0; SgQuadLineFlows_new(&o); for (int r = 0; r < (hist & 3); ++r) { Buf<double> A(flat(s.cell(0))), B(seg); SgQuadLineFlows_setQuadPoints(&o, A.p); SgQuadLineFlows_setLinePoints(&o, B.p); SgQuadLineFlows_computeProjections(&o); double w; for (int e = 0; e < 4; ++e) SgQuadLineFlows_getProjection(&o, e, &w); } SgQuadLineFlows_del(&o); break; }
    case 7: { SgFindOverlappingCells2D_type* o = 0; SgFindOverlappingCells2D_new(&o); for (int r = 0; r < (hist & 3); ++r) { Coords c(s); Buf<int> di(2), p(2); for (int i = 0; i < 2; ++i) { di[i] = s.dims[i]; p[i] = g.b(4); } SgFindOverlappingCells2D_setSrcGrid(&o, di.p, p.p, c.c); Buf<double> P(flat(d.cell(0))); SgFindOverlappingCells2D_setPolygonPoints(&o, 4, P.p); if (hist & 4) { SgFindOverlappingCells2D_findSrcCellIndices(&o); int n; SgFindOverlappingCells2D_getNumberOfSrcCellIndices(&o, &n); int* q; if (n) { SgFindOverlappingCells2D_getSrcCellIndices(&o, &q); int t = 0; for (int i = 0; i < n; ++i) t += q[i]; (void) t; } } std::swap(s, d); } SgFindOverlappingCells2D_del(&o); break; }
    case 8: { int m = g.i(1, 6), n = g.i(1, 6); SgLinearSolve_type* o = 0; SgLinearSolve_new(&o, m, n); for (int r = 0; r < (hist & 3); ++r) { Buf<double> A(m*n), b(m); for (auto& v : A) v = g.u(-1, 1); for (auto& v : b) v = g.u(-1, 1); SgLinearSolve_setMatrix(&o, A.p); SgLinearSolve_setRightHandSide(&o, b.p); SgLinearSolve_solve(&o); double* x; SgLinearSolve_getSolution(&o, &x); double t = 0; for (int i = 0; i < n; ++i) t += x[i]; double e; SgLinearSolve_getResidual(&o, &e); (void) t; } SgLinearSolve_del(&o); break; }
    case 9: { int nd = g.i(1, 3), np = g.i(1, 8), lev = g.i(1, 3); Buf<double> P(np*nd); for (auto& v : P) v = g.u(-1, 1); SgOctreePoints_type* o = 0; SgOctreePoints_new(&o, lev, nd, np, P.p); SgOctreePoints_del(&o); break; }
    case 10: { Buf<int> di(2); di[0] = g.i(3, 9); di[1] = g.i(2, 9); int n = di[0]*di[1]; SgTripolarGrid_type* o = 0; SgTripolarGrid_new(&o, di.p, g.i(0, di[0]-2)); if (hist & 1) { double** c; SgTripolarGrid_getGrid(&o, di.p, &c); double t = 0; for (int i = 0; i < n; ++i) t += c[0][i] + c[1][i]; (void) t; } SgTripolarGrid_del(&o); break; }
    case 11: { int n = g.i(1, 4); Buf<int> b(n), e(n), q(n); for (int i = 0; i < n; ++i) { b[i] = g.i(-3, 3); e[i] = b[i] + g.i(1, 4); } SgBoxIterator_type* o = 0; SgBoxIterator_new(&o, n, b.p, e.p); int m; SgBoxIterator_getNumberOfElements(&o, &m); for (int i = 0; i < m; ++i) { SgBoxIterator_getElement(&o, i, q.p); int k; SgBoxIterator_getIndex(&o, q.p, &k); } SgBoxIterator_del(&o); SgSideIterator_type si(n); while (si.next() == 0) si.get(); break; }
    case 12: { int n = g.i(0, 9); Buf<double> P(2*n); for (auto& v : P) v = g.b() ? g.i(-2, 2) : g.u(-2, 2); SgTriangulate_type* o = 0; SgTriangulate_new(&o, n, P.p); if (hist & 1) { double a; SgTriangulate_getConvexHullArea(&o, &a); } SgTriangulate_del(&o); break; }
    case 13: { Buf<double> p(3), q(3), r(3), t(3); for (auto* b : {&p, &q, &r, &t}) for (auto& v : *b) v = g.u(); SgLine_type* l = 0; SgLine_new(&l, p.p, q.p); SgLine_del(&l); SgTriangle_type* a = 0; SgTriangle_new(&a, p.p, q.p, r.p); double* x; int* k; SgTriangle_getPoint(&a, 2, &x); SgTriangle_getEdge(&a, 2, &k); SgTriangle_del(&a); SgTetrahedron_type* e = 0; SgTetrahedron_new(&e, p.p, q.p, r.p, t.p); SgTetrahedron_getFace(&e, 3, &k); SgTetrahedron_getEdge(&e, 5, &k); SgTetrahedron_getPoint(&e, 3, &x); SgTetrahedron_del(&e); break; }
    case 14: { Buf<int> di(2); di[0] = g.i(2, 8); di[1] = g.i(2, 8); Buf<double> X(di[0]*di[1]), Y(di[0]*di[1]), a(2), b(2); for (auto* q : {&a, &b}) for (auto& v : *q) v = g.u(); double* c[2] = {X.p, Y.p}; createRectangularGrid(di.p, a.p, b.p, c); createPolarGrid(di.p, a.p, 1., c); createRotatedPoleGrid(di.p, g.u(0, 90), g.u(0, 90), c); break; }
    default: { CmdLineArgParser* p = new CmdLineArgParser(); p->set("-a", 1., "x"); p->set("-n", 2, "y"); p->set("-s", "abc", "z"); Buf<char> x(3), y(3), z(1); memcpy(x.p, g.b() ? "-a" : "-n", 3); memcpy(y.p, g.b() ? "-s" : "-q", 3); z[0] = 0; Buf<char*> av(4); int n = g.i(1, 4); av[0] = z.p; av[1] = x.p; av[2] = g.b() ? y.p : z.p; av[3] = g.b() ? x.p : y.p; p->parse(n, av.p); delete p; } }
    HX_REQUIRE(live == before, (live - before) << " allocations are " << (live > before ? "not released" : "released too often") << " after the object was deleted");
}
void one_case(Rng& g) {
    static const char* nm[] = {"conservative", "nodal", "flow", "search", "quad/quad", "quad/line", "projection", "overlap", "solver", "octree", "tripolar", "iterators", "triangulate", "simplices", "generators", "command line"}; int kind = g.i(0, 15); HX_DESC(nm[kind]); hx::nontrivial(); run(kind, g);
}
