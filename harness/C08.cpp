#include "interp.h"
void one_case(Rng& g) {
    bool affine = g.b(); int st = g.i(0, 3); double sc = g.pick({1., 1., 10.}); Grid s = makeGrid(g, 7, affine ? 0 : 0.2, st, sc);
    Grid d; d.dims[0] = g.i(2, 5); d.dims[1] = g.i(2, 5); Pt o = s.at(0,0), a = s.at(s.dims[0]-1, 0), b = s.at(0, s.dims[1]-1); std::vector<double> U, V;
    for (int k = 0; k < d.n(); ++k) { double u = g.b(4) ? g.pick({0., 1.}) : g.b(4) ? g.i(0, s.dims[0]-1)/(double)(s.dims[0]-1) : g.u(-0.1, 1.1), v = g.b(4) ? g.pick({0., 1.}) : g.b(4) ? g.i(0, s.dims[1]-1)/(double)(s.dims[1]-1) : g.u(-0.1, 1.1); U.push_back(u); V.push_back(v);
        d.x.push_back(o[0] + u*(a[0]-o[0]) + v*(b[0]-o[0])); d.y.push_back(o[1] + u*(a[1]-o[1]) + v*(b[1]-o[1])); }
    double tol = g.pick({1e-8, 1e-8, 1e-6}); int nit = g.pick({5, 20, 100});
    HX_DESC("affine " << affine << " tol " << tol << " niter " << nit << " src " << dg(s) << " dst " << dg(d));
    SgNodeInterp2D_type* q = 0; SgNodeInterp2D_new(&q, nit, tol); if (g.b()) { setSrc(q, s); setDst(q, d); } else { setDst(q, d); setSrc(q, s); } SgNodeInterp2D_computeWeights(&q);
    std::vector<bool> t; W m = matrixOf(q, s.n(), d.n(), t); if (m.size()) hx::nontrivial();
    for (int k = 0; k < d.n(); ++k) {
        if (!t[k]) { if (affine) { bool in = U[k] >= 0 && U[k] <= 1 && V[k] >= 0 && V[k] <= 1; HX_REQUIRE(!in, "dst node " << k << " is in the domain but gets no weights"); } continue; }
        double sw = 0, x = 0, y = 0; int i0 = 1<<30, i1 = -1, j0 = 1<<30, j1 = -1; int cnt = 0;
        for (auto e = m.lower_bound(std::make_pair(k, 0)); e != m.end() && e->first.first == k; ++e) { int n = e->first.second; double w = e->second; sw += w; x += w*s.x[n]; y += w*s.y[n]; ++cnt; int i = n / s.dims[1], j = n % s.dims[1]; i0 = std::min(i0, i); i1 = std::max(i1, i); j0 = std::min(j0, j); j1 = std::max(j1, j); HX_REQUIRE(w >= -1e-12 && w <= 1+1e-12, "weight " << w << " of dst node " << k); }
        HX_REQUIRE(cnt <= 4 && i1 - i0 <= 1 && j1 - j0 <= 1, "the weights of dst node " << k << " are not on one cell");
        HX_REQUIRE(hx::close(sw, 1, 1e-12), "weights of dst node " << k << " add up to " << sw);
        HX_REQUIRE(std::hypot(x-d.x[k], y-d.y[k]) <= tol + 1e-12*sc, "weights of dst node " << k << " reproduce " << x << "," << y << " instead of " << d.x[k] << "," << d.y[k]);
    }
    if (affine) { // linear fields are exact
        double c0 = g.u(-1,1), c1 = g.u(-1,1), c2 = g.u(-1,1); std::vector<double> f(s.n()); for (int i = 0; i < s.n(); ++i) f[i] = c0 + c1*s.x[i] + c2*s.y[i]; Buf<double> out(d.n()); for (auto& v : out) v = SENT; apply1(q, f, out);
        for (int k = 0; k < d.n(); ++k) if (t[k]) HX_REQUIRE(hx::close(out[k], c0 + c1*d.x[k] + c2*d.y[k], 2*tol + 1e-11*sc), "linear field at dst node " << k); }
    SgNodeInterp2D_del(&q);
}
