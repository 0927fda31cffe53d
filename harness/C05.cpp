#include "interp.h"
void one_case(Rng& g) {
    Grid s, d; int kind = g.i(0, 3);
    if (kind == 0) { // dst covered by src: same affine frame, refined
        int st = g.i(0, 3); s = makeGrid(g, 5, 0, st, g.pick({1., 10., 100.})); d.dims[0] = g.i(2, 5); d.dims[1] = g.i(2, 5); d.x.clear(); d.y.clear();
        Pt o = s.at(0,0), a = s.at(s.dims[0]-1, 0), b = s.at(0, s.dims[1]-1); bool lat = g.b();
        double u0 = 0, u1 = 1, v0 = 0, v1 = 1; if (!lat) { u0 = g.u(0, .3); u1 = g.u(.6, 1); v0 = g.u(0, .3); v1 = g.u(.6, 1); } if (g.b(4)) std::swap(u0, u1);
        for (int i = 0; i < d.dims[0]; ++i) for (int j = 0; j < d.dims[1]; ++j) { double u = u0 + (u1-u0)*i/(d.dims[0]-1), v = v0 + (v1-v0)*j/(d.dims[1]-1);
            d.x.push_back(o[0] + u*(a[0]-o[0]) + v*(b[0]-o[0])); d.y.push_back(o[1] + u*(a[1]-o[1]) + v*(b[1]-o[1])); }
        if (!d.ok(0.02)) return;
        double r = d.cellSize() / s.cellSize(); if (r < 0.05 || r > 20) return;
    } else randPair(g, s, d);
    HX_DESC("kind " << kind << " src " << dg(s) << " dst " << dg(d));
    SgConserveInterp2D_type* o = 0; SgConserveInterp2D_new(&o); setSrc(o, s); setDst(o, d); SgConserveInterp2D_computeWeights(&o);
    W got; if (anyWeights(s, d)) { std::vector<Entry> a = iterate(o, 100000); for (auto& e : a) { HX_REQUIRE(e.dst >= 0 && e.dst < d.nc() && e.src >= 0 && e.src < s.nc(), "entry out of range"); got[std::make_pair(e.dst, e.src)] += e.w; } hx::nontrivial(); } else { std::vector<bool> t; got = matrixOf(o, s.nc(), d.nc(), t); }
    for (int i = 0; i < d.nc(); ++i) {
        Poly D = d.cell(i); double A = std::fabs(polyArea(D)), sum = 0, exs = 0;
        for (int j = 0; j < s.nc(); ++j) {
            Poly S = s.cell(j); Poly c = clip(D, S); double ex = c.size() >= 3 ? polyArea(c)/A : 0; auto it = got.find(std::make_pair(i, j)); double w = it == got.end() ? 0 : it->second;
            double tol = 4e-6 * std::max(1., diam(D)) / std::min(1., A) ; tol = std::min(tol, 4e-6 * (1 + diam(D) / A) + 1e-7);
            HX_REQUIRE(hx::close(w, ex, tol), "weight of dst " << i << " src " << j << " is " << w << ", the overlap ratio is " << ex);
            sum += w; exs += ex;
        }
        if (exs > 1 - 1e-12) HX_REQUIRE(hx::close(sum, 1, 1e-5 * (1 + diam(D)/A)), "weights of covered dst cell " << i << " add up to " << sum);
    }
    // the weights of a pair do not depend on the other cells
    for (int rep = 0; rep < 2; ++rep) {
        int i = g.i(0, d.nc()-1), j = g.i(0, s.nc()-1); if (clip(d.cell(i), s.cell(j)).size() < 3 || polyArea(clip(d.cell(i), s.cell(j))) < 1e-4*std::fabs(polyArea(d.cell(i)))) continue;
        auto one = [](const Grid& q, int c) { Grid r; r.dims[0] = r.dims[1] = 2; int I = c/(q.dims[1]-1), J = c%(q.dims[1]-1); for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { Pt p = q.at(I+a, J+b); r.x.push_back(p[0]); r.y.push_back(p[1]); } return r; };
        SgConserveInterp2D_type* q = 0; SgConserveInterp2D_new(&q); setSrc(q, one(s, j)); setDst(q, one(d, i)); SgConserveInterp2D_computeWeights(&q);
        std::vector<Entry> a = iterate(q, 10); double w = got.count(std::make_pair(i, j)) ? got[std::make_pair(i, j)] : 0;
        HX_REQUIRE(a.size() == 1 && hx::close(a[0].w, w, 1e-6 * (1 + diam(d.cell(i))/std::fabs(polyArea(d.cell(i))))), "the pair alone gives " << a[0].w << ", within the grids " << w);
        SgConserveInterp2D_del(&q);
    }
    SgConserveInterp2D_del(&o);
}
