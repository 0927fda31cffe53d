#include "interp.h"
#include "SgFindOverlappingCells2D.h"
void one_case(Rng& g) {
    bool rect = g.b(3) == 0; Grid s; double sc = g.pick({1., 1., 10.});
    if (rect) { s.dims[0] = g.i(2, 9); s.dims[1] = g.i(2, 9); double x0 = g.u(-3, 1)*sc, y0 = g.u(-3, 1)*sc, w = g.u(.5, 5)*sc, h = w*g.u(.3, 3); for (int i = 0; i < s.dims[0]; ++i) for (int j = 0; j < s.dims[1]; ++j) { s.x.push_back(x0 + w*i/(s.dims[0]-1)); s.y.push_back(y0 + h*j/(s.dims[1]-1)); } }
    else s = makeGrid(g, 7, 0.2, g.i(0, 3), sc);
    double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300}; for (int k = 0; k < s.n(); ++k) { lo[0] = std::min(lo[0], s.x[k]); hi[0] = std::max(hi[0], s.x[k]); lo[1] = std::min(lo[1], s.y[k]); hi[1] = std::max(hi[1], s.y[k]); }
    int np = g.i(3, 6); std::vector<double> p; double pl[2] = {1e300, 1e300}, ph[2] = {-1e300, -1e300}; bool small = g.b(); double f = small ? g.u(0.01, 0.3) : 1, c[2] = {g.u(-.3, 1.3), g.u(-.3, 1.3)};
    for (int i = 0; i < np; ++i) for (int j = 0; j < 2; ++j) { double t = small ? c[j] + f*g.u(-.5, .5) : g.u(-.5, 1.5); double v = lo[j] + (hi[j]-lo[j])*t; if (g.b(5)) v = j ? s.y[g.i(0, s.n()-1)] : s.x[g.i(0, s.n()-1)]; p.push_back(v); pl[j] = std::min(pl[j], v); ph[j] = std::max(ph[j], v); }
    HX_DESC("rect " << rect << " src " << dg(s) << " polygon " << hx::str(p));
    SgFindOverlappingCells2D_type* o = 0; SgFindOverlappingCells2D_new(&o); { Coords cc(s); Buf<int> d(2), per(2); for (int i = 0; i < 2; ++i) { d[i] = s.dims[i]; per[i] = 0; } SgFindOverlappingCells2D_setSrcGrid(&o, d.p, per.p, cc.c); } { Buf<double> P(p); SgFindOverlappingCells2D_setPolygonPoints(&o, np, P.p); } SgFindOverlappingCells2D_findSrcCellIndices(&o);
    int n = -1; SgFindOverlappingCells2D_getNumberOfSrcCellIndices(&o, &n); HX_REQUIRE(n >= 0, n << " cells"); std::set<int> got; if (n) { int* q = 0; SgFindOverlappingCells2D_getSrcCellIndices(&o, &q); for (int i = 0; i < n; ++i) { HX_REQUIRE(q[i] >= 0 && q[i] < s.nc(), "cell " << q[i] << " of " << s.nc()); HX_REQUIRE(got.insert(q[i]).second, "cell " << q[i] << " is reported twice"); } }
    if (rect) { hx::nontrivial(); int w = s.dims[1]-1, i0 = 1<<30, i1 = -1, j0 = 1<<30, j1 = -1; for (int k : got) { i0 = std::min(i0, k/w); i1 = std::max(i1, k/w); j0 = std::min(j0, k%w); j1 = std::max(j1, k%w); } if (n) HX_REQUIRE(n == (i1-i0+1)*(j1-j0+1), "the cells are not an index box");
        for (int k = 0; k < s.nc(); ++k) { Poly q = s.cell(k); double a[2] = {q[0][0], q[0][1]}, b[2] = {q[2][0], q[2][1]}; bool ov = true; for (int j = 0; j < 2; ++j) ov &= std::min(b[j], ph[j]) - std::max(a[j], pl[j]) > 1e-5*sc; if (ov) HX_REQUIRE(got.count(k), "cell " << k << " meets the box of the polygon but is not reported"); } }
    SgFindOverlappingCells2D_del(&o);
}
