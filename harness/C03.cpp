#include "interp.h"
static double rnd(Rng& g) { return g.b(8) ? 0. : g.u(-100, 100); }
template <class O> void check(Rng& g, O* o, int ns, int nd, const W& m, const std::vector<bool>& touched) {
    for (int rep = 0; rep < 2; ++rep) {
        std::vector<double> f(ns); for (auto& v : f) v = rnd(g);
        Buf<double> out(nd); std::vector<double> pre(nd); for (int i = 0; i < nd; ++i) out[i] = pre[i] = g.pick({SENT, -3.25, 1e300, 0.5});
        if (g.b(4)) for (int i = 0; i < nd; ++i) if (touched[i]) out[i] = NAN;
        int times = g.i(1, 2); for (int t = 0; t < times; ++t) apply1(o, f, out);
        std::vector<double> ex(nd, 0.), mag(nd, 0.);
        for (auto& e : m) { ex[e.first.first] += e.second * f[e.first.second]; mag[e.first.first] += std::fabs(e.second * f[e.first.second]); }
        for (int i = 0; i < nd; ++i) {
            if (touched[i]) HX_REQUIRE(hx::close(out[i], ex[i], 1e-11 * (1 + mag[i])), "dst " << i << " got " << out[i] << " expected " << ex[i] << " (applied " << times << "x)");
            else HX_REQUIRE(out[i] == pre[i], "dst " << i << " has no weights but was written: " << out[i]);
        }
    }
}
void one_case(Rng& g) {
    Grid s, d; randPair(g, s, d);
    HX_DESC("src " << dg(s) << " dst " << dg(d));
    if (g.b()) {
        SgConserveInterp2D_type* o = 0; SgConserveInterp2D_new(&o); setSrc(o, s); setDst(o, d); SgConserveInterp2D_computeWeights(&o);
        std::vector<bool> t; W m = matrixOf(o, s.nc(), d.nc(), t);
        W it; if (m.size()) { for (auto& e : iterate(o, 100000)) { HX_REQUIRE(e.dst >= 0 && e.dst < d.nc() && e.src >= 0 && e.src < s.nc(), "entry out of range"); it[std::make_pair(e.dst, e.src)] += e.w; HX_REQUIRE(t[e.dst], "dst " << e.dst << " has weights but is not written"); }
            for (auto& e : it) { double v = m.count(e.first) ? m[e.first] : 0; HX_REQUIRE(hx::close(v, e.second, 1e-13 * (1 + std::fabs(v))), "applying a unit field at src " << e.first.second << " gives " << v << " at dst " << e.first.first << ", the stored weight is " << e.second); }
            for (auto& e : m) HX_REQUIRE(it.count(e.first), "unit field at src " << e.first.second << " contributes to dst " << e.first.first << " without a stored weight");
            std::vector<bool> has(d.nc(), false); for (auto& e : it) has[e.first.first] = true;
            for (int i = 0; i < d.nc(); ++i) HX_REQUIRE(has[i] == t[i], "dst " << i << " written without weights");
            hx::nontrivial(); }
        check(g, o, s.nc(), d.nc(), m, t);
        SgConserveInterp2D_del(&o);
    } else {
        SgNodeInterp2D_type* o = 0; SgNodeInterp2D_new(&o, g.pick({5, 20}), 1e-8); setSrc(o, s); setDst(o, d); SgNodeInterp2D_computeWeights(&o);
        std::vector<bool> t; W m = matrixOf(o, s.n(), d.n(), t); if (m.size()) hx::nontrivial();
        // a stored set of nodal weights adds up to one and reproduces the destination position
        std::vector<double> sw(d.n(), 0.), sx(d.n(), 0.), sy(d.n(), 0.);
        for (auto& e : m) { sw[e.first.first] += e.second; sx[e.first.first] += e.second * s.x[e.first.second]; sy[e.first.first] += e.second * s.y[e.first.second]; }
        for (int i = 0; i < d.n(); ++i) if (t[i]) HX_REQUIRE(hx::close(sw[i], 1, 1e-11) && std::hypot(sx[i]-d.x[i], sy[i]-d.y[i]) < 1.1e-8 + 1e-12*(std::fabs(d.x[i])+std::fabs(d.y[i])), "unit fields do not reproduce dst node " << i);
        check(g, o, s.n(), d.n(), m, t);
        SgNodeInterp2D_del(&o);
    }
}
