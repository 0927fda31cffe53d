#include "flow.h"
void one_case(Rng& g) {
    Grid s = makeGrid(g, 6, g.b() ? 0 : 0.2, g.i(0, 3), g.pick({1., 1., 10.})); Line l = randLine(g, s, g.i(1, 6), -0.3, 1.3);
    HX_DESC("src " << dg(s) << " line " << hx::str(l.x) << " " << hx::str(l.y));
    SgFlowInterp2D_type* o = 0; SgFlowInterp2D_new(&o); if (g.b()) { setSrc(o, s); setDst(o, l); } else { setDst(o, l); setSrc(o, s); } SgFlowInterp2D_computeWeights(&o);
    int n0 = s.dims[0], n1 = s.dims[1], ne0 = (n0-1)*n1, ne1 = n0*(n1-1), nd = (int) l.x.size()-1;
    std::vector<double> e0(ne0), e1(ne1); bool unit = g.b(4); for (auto& v : e0) v = unit ? 0 : g.u(-1, 1); for (auto& v : e1) v = unit ? 0 : g.u(-1, 1); if (unit) { int k = g.i(0, ne0+ne1-1); (k < ne0 ? e0[k] : e1[k-ne0]) = 1; }
    Buf<double> out(nd); for (auto& v : out) v = SENT; applyF(o, e0, e1, out);
    std::vector<double> first = out.vec(); Buf<double> again(nd); for (auto& v : again) v = g.u(-5, 5); std::vector<double> before = again.vec(); applyF(o, e0, e1, again);
    for (int k = 0; k < nd; ++k) {
        // oracle: the public intersection and projection classes, cell by cell
        double sum = 0, mag = 0; bool any = false, doubtful = false; std::vector<double> seg = {l.x[k], l.y[k], l.x[k+1], l.y[k+1]};
        for (int c = 0; c < s.nc(); ++c) {
            std::vector<double> q = flat(s.cell(c)); Buf<double> Q(q), L(seg); SgQuadLineIntersect_type* x = 0; SgQuadLineIntersect_new(&x); SgQuadLineIntersect_setQuadPoints(&x, Q.p); SgQuadLineIntersect_setLinePoints(&x, L.p); int n = 0; double* p = 0; SgQuadLineIntersect_collectIntersectPoints(&x, &n, &p);
            double len = n >= 2 ? std::hypot(p[0]-p[2*n-2], p[1]-p[2*n-1]) : 0; if (n >= 1 && len < 1e-7*s.cellSize()) doubtful = true;
            if (n >= 2) { any = true; int i = c/(n1-1), j = c%(n1-1); double ed[4] = {e0[i*n1+j], e0[i*n1+j+1], e1[i*(n1-1)+j], e1[(i+1)*(n1-1)+j]};
                for (int t = 0; t+1 < n; ++t) { Buf<double> L2(std::vector<double>(p+2*t, p+2*t+4)); SgQuadLineFlows_type* f = 0; SgQuadLineFlows_new(&f); SgQuadLineFlows_setQuadPoints(&f, Q.p); SgQuadLineFlows_setLinePoints(&f, L2.p); SgQuadLineFlows_computeProjections(&f); for (int e = 0; e < 4; ++e) { double w = 0; SgQuadLineFlows_getProjection(&f, e, &w); sum += w*ed[e]; mag += std::fabs(w); } SgQuadLineFlows_del(&f); } }
            SgQuadLineIntersect_del(&x);
        }
        if (doubtful) continue; if (any) hx::nontrivial();
        if (!any) { HX_REQUIRE(first[k] == SENT && again[k] == before[k], "segment " << k << " crosses no cell but is set to " << first[k]); continue; }
        HX_REQUIRE(hx::close(first[k], sum, 1e-8*(1+mag)), "flow of segment " << k << " is " << first[k] << " expected " << sum);
        HX_REQUIRE(first[k] == again[k], "flow of segment " << k << " depends on the previous contents: " << again[k] << " vs " << first[k]);
    }
    SgFlowInterp2D_del(&o);
}
