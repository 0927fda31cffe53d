#include "fp.h"
void one_case(Rng& g) {
    int nd = g.i(1, 3); bool affine = g.b(); double sc = g.pick({1., 1., 10., 300.}); NGrid G = randN(g, nd, nd == 3 ? 4 : 7, affine, sc);
    std::vector<int> per(nd, 0); bool anyPer = false; if (g.b(4)) for (auto& p : per) { p = g.b(); anyPer |= p; }
    int nit = g.pick({1, 2, 5, 20, 50}); double tol = g.pick({1e-10, 1e-8, 1e-4, 0.1}) * std::max(1., sc/10);
    HX_DESC("nitermax " << nit << " tol " << tol << " per " << hx::str(per) << " " << dn(G));
    SgFindPointInCell_type* f = 0; SgFindPointInCell_new(&f, nit, tol); setGrid(f, G, per);
    std::vector<double> lo(nd, 1e300), hi(nd, -1e300); for (int i = 0; i < nd; ++i) for (double v : G.c[i]) { lo[i] = std::min(lo[i], v); hi[i] = std::max(hi[i], v); }
    for (int srch = g.i(1, 4); srch; --srch) {
        Buf<double> t(nd), x0(nd), pos(nd), ind(nd); bool inDomain = false; std::vector<double> loc(nd);
        if (g.b(3)) for (int i = 0; i < nd; ++i) t[i] = lo[i] + (hi[i]-lo[i])*g.u(-0.3, 1.3);
        else { for (int i = 0; i < nd; ++i) loc[i] = g.b(4) ? g.i(0, G.dims[i]-1) : g.u(0, G.dims[i]-1); std::vector<double> e = G.eval(loc); for (int i = 0; i < nd; ++i) t[i] = e[i]; inDomain = true; }
        for (int i = 0; i < nd; ++i) x0[i] = g.b(4) ? g.i(0, G.dims[i]-1) : g.u(0, G.dims[i]-1);
        std::vector<double> tt = t.vec(); HX_DESC("target " << hx::str(tt) << " from " << hx::str(x0.vec()));
        bool out = false, near = false; for (int i = 0; i < nd; ++i) { double m = 1e-9*std::max(1., sc); if (tt[i] < lo[i]-m || tt[i] > hi[i]+m) out = true; if (tt[i] < lo[i] || tt[i] > hi[i]) near = true; }
        SgFindPointInCell_reset(&f, x0.p, t.p); for (auto& v : t) v = 1e99; for (auto& v : x0) v = -55;
        int st = 0, k = 0;
        while (st == 0) {
            st = SgFindPointInCell_next(&f); ++k;
            HX_REQUIRE(k <= nit, "more than " << nit << " iterations");
            HX_REQUIRE(st == 0 || st == 1 || st == -1 || st == -2 || st == -3, "status " << st);
            for (auto& v : ind) v = -77; SgFindPointInCell_getIndices(&f, ind.p);
            for (int i = 0; i < nd; ++i) HX_REQUIRE(ind[i] >= 0 && ind[i] <= G.dims[i]-1, "index " << ind[i] << " out of the domain, status " << st);
            double err = -1; SgFindPointInCell_getError(&f, &err); SgFindPointInCell_getPosition(&f, pos.p); std::vector<double> e = G.eval(ind.vec()); double d = 0; for (int i = 0; i < nd; ++i) { d += (e[i]-tt[i])*(e[i]-tt[i]); HX_REQUIRE(hx::close(pos[i], e[i], 1e-11*std::max(1., sc)), "position " << pos[i] << " at the indices, expected " << e[i]); } d = std::sqrt(d);
            HX_REQUIRE(hx::close(err, d, 1e-10*std::max(1., sc)), "error " << err << " expected " << d);
            int nh = -1; double* h = 0; if (st != -3) { SgFindPointInCell_getErrorHistory(&f, &nh, &h); HX_REQUIRE(nh == k, "history has " << nh << " entries after " << k << " iterations"); HX_REQUIRE(hx::close(h[nh-1], d, 1e-10*std::max(1., sc)), "last error in the history " << h[nh-1] << " expected " << d); }
            if (st == 1) HX_REQUIRE(d <= tol + 1e-11*std::max(1., sc), "converged with error " << d << ", tolerance " << tol);
            if (st == 0) HX_REQUIRE(d >= tol - 1e-11*std::max(1., sc), "not converged with error " << d << ", tolerance " << tol);
            if (out) HX_REQUIRE(st == -3, "target outside the box, status " << st); if (!near) HX_REQUIRE(st != -3, "target inside the box reported outside");
        }
        if (st == 1) hx::nontrivial();
        if (affine && !anyPer && inDomain && !near && nit >= 5) HX_REQUIRE(st == 1, "target in an affine grid not found, status " << st);
    }
    SgFindPointInCell_del(&f);
}
