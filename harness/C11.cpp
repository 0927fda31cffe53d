// histories on one object compared with a new object
#include "flow.h"
#include "fp.h"
#include "SgFindOverlappingCells2D.h"
#include "SgLinearSolve.h"
typedef std::vector<double> R; // observed results
static bool same(const R& a, const R& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i]) && !(a[i] != a[i] && b[i] != b[i])) { if (!hx::close(a[i], b[i], 1e-12, 1e-12)) return false; } return true; }
#define CMP(a, b, w) HX_REQUIRE(same(a, b), w << ": " << hx::str(a) << " but a new object gives " << hx::str(b))
static R conserve(SgConserveInterp2D_type* o, const Grid& s, const Grid& d, int times, int order, bool any) { if (order) { setSrc(o, s); setDst(o, d); } else { setDst(o, d); setSrc(o, s); } for (int t = 0; t < times; ++t) SgConserveInterp2D_computeWeights(&o); R r; if (any) for (auto& e : iterate(o, 100000)) { r.push_back(e.dst); r.push_back(e.src); r.push_back(e.w); } Buf<double> out(d.nc()); for (auto& v : out) v = SENT; std::vector<double> f(s.nc()); for (size_t i = 0; i < f.size(); ++i) f[i] = 1 + i*.37; apply1(o, f, out); for (auto v : out) r.push_back(v); return r; }
static R node(SgNodeInterp2D_type* o, const Grid& s, const Grid& d, int times, int order, int p0, int p1) { if (order) { setSrc(o, s, p0, p1); setDst(o, d); } else { setDst(o, d); setSrc(o, s, p0, p1); } for (int t = 0; t < times; ++t) SgNodeInterp2D_computeWeights(&o); R r; Buf<double> out(d.n()); for (auto& v : out) v = SENT; std::vector<double> f(s.n()); for (size_t i = 0; i < f.size(); ++i) f[i] = 1 + i*.37; apply1(o, f, out); for (auto v : out) r.push_back(v); return r; }
static R flow(SgFlowInterp2D_type* o, const Grid& s, const Line& l, int times, int order) { if (order) { setSrc(o, s); setDst(o, l); } else { setDst(o, l); setSrc(o, s); } for (int t = 0; t < times; ++t) SgFlowInterp2D_computeWeights(&o); std::vector<double> a((s.dims[0]-1)*s.dims[1]), b(s.dims[0]*(s.dims[1]-1)); for (size_t i = 0; i < a.size(); ++i) a[i] = 1 + .31*i; for (size_t i = 0; i < b.size(); ++i) b[i] = -2 + .17*i*i; Buf<double> out(l.x.size()-1); for (auto& v : out) v = SENT; applyF(o, a, b, out); return out.vec(); }
static R search(SgFindPointInCell_type* f, const NGrid& G, const std::vector<double>& t0, const std::vector<double>& x) { Buf<double> g0(t0), tg(x); SgFindPointInCell_reset(&f, g0.p, tg.p); R r; int st = 0, n = 0; while (st == 0 && n++ < 1000) { st = SgFindPointInCell_next(&f); r.push_back(st); } Buf<double> d(G.nd), p(G.nd); SgFindPointInCell_getIndices(&f, d.p); SgFindPointInCell_getPosition(&f, p.p); double e; SgFindPointInCell_getError(&f, &e); for (auto v : d) r.push_back(v); for (auto v : p) r.push_back(v); r.push_back(e); return r; }
static R qq(SgQuadIntersect_type* o, const Poly& a, const Poly& b, int times) { Buf<double> A(flat(a)), B(flat(b)); SgQuadIntersect_setQuadPoints(&o, A.p, B.p); R r; for (int t = 0; t < times; ++t) { int n = 0; double* p = 0; SgQuadIntersect_getIntersectPoints(&o, &n, &p); r.clear(); r.push_back(n); for (int i = 0; i < 2*n; ++i) r.push_back(p[i]); } return r; }
static R ql(SgQuadLineIntersect_type* o, const Poly& a, const std::vector<double>& l, int times) { Buf<double> A(flat(a)), B(l); SgQuadLineIntersect_setQuadPoints(&o, A.p); SgQuadLineIntersect_setLinePoints(&o, B.p); R r; for (int t = 0; t < times; ++t) { int n = 0; double* p = 0; SgQuadLineIntersect_collectIntersectPoints(&o, &n, &p); r.clear(); r.push_back(n); for (int i = 0; i < 2*n; ++i) r.push_back(p[i]); } return r; }
static R pj(SgQuadLineFlows_type* o, const Poly& a, const std::vector<double>& l, int times) { Buf<double> A(flat(a)), B(l); SgQuadLineFlows_setQuadPoints(&o, A.p); SgQuadLineFlows_setLinePoints(&o, B.p); R r; for (int t = 0; t < times; ++t) { r.clear(); r.push_back(SgQuadLineFlows_computeProjections(&o)); for (int e = 0; e < 4; ++e) { double w; SgQuadLineFlows_getProjection(&o, e, &w); r.push_back(w); } } return r; }
static R ov(SgFindOverlappingCells2D_type* o, const Grid& s, const std::vector<double>& poly, int times, int p0) { Coords c(s); Buf<int> d(2), p(2); for (int i = 0; i < 2; ++i) d[i] = s.dims[i]; p[0] = p0; p[1] = 0; SgFindOverlappingCells2D_setSrcGrid(&o, d.p, p.p, c.c); Buf<double> P(poly); SgFindOverlappingCells2D_setPolygonPoints(&o, (int) poly.size()/2, P.p); for (int t = 0; t < times; ++t) SgFindOverlappingCells2D_findSrcCellIndices(&o); R r; int n = 0; SgFindOverlappingCells2D_getNumberOfSrcCellIndices(&o, &n); r.push_back(n); int* q = 0; if (n) SgFindOverlappingCells2D_getSrcCellIndices(&o, &q); for (int i = 0; i < n; ++i) r.push_back(q[i]); return r; }
static R ls(SgLinearSolve_type* o, const R& A, const R& b, int n) { Buf<double> a(A), c(b); SgLinearSolve_setMatrix(&o, a.p); SgLinearSolve_setRightHandSide(&o, c.p); R r; r.push_back(SgLinearSolve_solve(&o)); double* x; SgLinearSolve_getSolution(&o, &x); for (int i = 0; i < n; ++i) r.push_back(x[i]); double e; SgLinearSolve_getResidual(&o, &e); r.push_back(e); return r; }
void one_case(Rng& g) {
    int kind = g.i(0, 8), steps = g.i(2, 4); hx::nontrivial(); static const char* nm[] = {"conservative", "nodal", "flow", "search", "quad/quad", "quad/line", "projection", "overlap", "solver"}; HX_DESC(nm[kind]);
    SgConserveInterp2D_type* co = 0; SgNodeInterp2D_type* no = 0; SgFlowInterp2D_type* fo = 0; SgFindPointInCell_type* so = 0; SgQuadIntersect_type* qo = 0; SgQuadLineIntersect_type* lo = 0; SgQuadLineFlows_type* po = 0; SgFindOverlappingCells2D_type* oo = 0; SgLinearSolve_type* ro = 0; int nit = g.pick({3, 10, 50}); int m = g.i(1, 5), n = g.i(1, 5);
    switch (kind) { case 0: SgConserveInterp2D_new(&co); break; case 1: SgNodeInterp2D_new(&no, nit, 1e-8); break; case 2: SgFlowInterp2D_new(&fo); break; case 3: SgFindPointInCell_new(&so, nit, 1e-8); break; case 4: SgQuadIntersect_new(&qo); break; case 5: SgQuadLineIntersect_new(&lo); break; case 6: SgQuadLineFlows_new(&po); break; case 7: SgFindOverlappingCells2D_new(&oo); break; case 8: SgLinearSolve_new(&ro, m, n); }
    Grid ps, pd; bool prev = false;
    for (int k = 0; k < steps; ++k) { int times = g.i(1, 2), ord = g.b(); Grid s, d; randPair(g, s, d, 4); if (prev && g.b(3)) s = ps; if (prev && g.b(3)) d = pd; ps = s; pd = d; prev = true; Poly a = randQuad(g, g.b()), b = randQuad(g, g.b()); std::vector<double> seg; for (int i = 0; i < 4; ++i) seg.push_back(g.u(-2, 2));
        if (kind < 3 || kind == 7) { HX_DESC("step " << k << " src " << dg(s) << " dst " << dg(d)); }
        if (kind == 0) { SgConserveInterp2D_type* f = 0; SgConserveInterp2D_new(&f); bool any = anyWeights(s, d); R x = conserve(co, s, d, times, ord, any), y = conserve(f, s, d, 1, 1, any); CMP(x, y, "weights at step " << k); SgConserveInterp2D_del(&f); }
        else if (kind == 1) { int p0 = g.b(4), p1 = g.b(4); SgNodeInterp2D_type* f = 0; SgNodeInterp2D_new(&f, nit, 1e-8); R x = node(no, s, d, times, ord, p0, p1), y = node(f, s, d, 1, 1, p0, p1); CMP(x, y, "values at step " << k); SgNodeInterp2D_del(&f); }
        else if (kind == 2) { Line l = randLine(g, s, g.i(1, 4), -.2, 1.2); SgFlowInterp2D_type* f = 0; SgFlowInterp2D_new(&f); R x = flow(fo, s, l, times, ord), y = flow(f, s, l, 1, 1); CMP(x, y, "flows at step " << k << " line " << hx::str(l.x) << hx::str(l.y)); SgFlowInterp2D_del(&f); }
        else if (kind == 3) { int nd = g.i(1, 3); NGrid G = randN(g, nd, 4, g.b(), g.pick({1., 10.})); std::vector<int> per(nd, 0); if (g.b(3)) for (auto& v : per) v = g.b(); HX_DESC("step " << k << " " << dn(G)); setGrid(so, G, per); SgFindPointInCell_type* f = 0; SgFindPointInCell_new(&f, nit, 1e-8); setGrid(f, G, per); for (int t = 0; t < times; ++t) { std::vector<double> t0(nd), t1(nd); for (int i = 0; i < nd; ++i) { t0[i] = g.u(0, G.dims[i]-1); t1[i] = g.u(0, G.dims[i]-1); } std::vector<double> x = G.eval(t1); if (g.b(5)) x[0] += 100; SgFindPointInCell_type* f2 = 0; SgFindPointInCell_new(&f2, nit, 1e-8); setGrid(f2, G, per); R u = search(so, G, t0, x), v = search(f, G, t0, x), w = search(f2, G, t0, x); CMP(u, w, "search at step " << k); CMP(v, w, "second search at step " << k); SgFindPointInCell_del(&f2); } SgFindPointInCell_del(&f); }
        else if (kind == 4) { HX_DESC(hx::str(flat(a)) << hx::str(flat(b))); SgQuadIntersect_type* f = 0; SgQuadIntersect_new(&f); R x = qq(qo, a, b, times), y = qq(f, a, b, 1); CMP(x, y, "points at step " << k); SgQuadIntersect_del(&f); }
        else if (kind == 5) { HX_DESC(hx::str(flat(a)) << hx::str(seg)); SgQuadLineIntersect_type* f = 0; SgQuadLineIntersect_new(&f); R x = ql(lo, a, seg, times), y = ql(f, a, seg, 1); CMP(x, y, "points at step " << k); SgQuadLineIntersect_del(&f); }
        else if (kind == 6) { HX_DESC(hx::str(flat(a)) << hx::str(seg)); SgQuadLineFlows_type* f = 0; SgQuadLineFlows_new(&f); R x = pj(po, a, seg, times), y = pj(f, a, seg, 1); CMP(x, y, "projections at step " << k); SgQuadLineFlows_del(&f); }
        else if (kind == 7) { int p0 = g.b(4); std::vector<double> poly; int np = g.i(1, 5); for (int i = 0; i < np; ++i) { poly.push_back(d.x[g.i(0, d.n()-1)]); poly.push_back(d.y[g.i(0, d.n()-1)]); } SgFindOverlappingCells2D_type* f = 0; SgFindOverlappingCells2D_new(&f); R x = ov(oo, s, poly, times, p0), y = ov(f, s, poly, 1, p0); CMP(x, y, "cells at step " << k); SgFindOverlappingCells2D_del(&f); }
        else { R A(m*n), B(m); for (auto& v : A) v = g.u(-1, 1); for (auto& v : B) v = g.u(-1, 1); HX_DESC(m << "x" << n); SgLinearSolve_type* f = 0; SgLinearSolve_new(&f, m, n); R x = ls(ro, A, B, n), y = ls(f, A, B, n); if (y[0] == 0 && y.back() < 1e3) CMP(x, y, "solution at step " << k); SgLinearSolve_del(&f); } }
    if (co) SgConserveInterp2D_del(&co); if (no) SgNodeInterp2D_del(&no); if (fo) SgFlowInterp2D_del(&fo); if (so) SgFindPointInCell_del(&so); if (qo) SgQuadIntersect_del(&qo); if (lo) SgQuadLineIntersect_del(&lo); if (po) SgQuadLineFlows_del(&po); if (oo) SgFindOverlappingCells2D_del(&oo); if (ro) SgLinearSolve_del(&ro);
}
