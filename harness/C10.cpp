#include "fp.h"
void one_case(Rng& g) {
    int nd = g.i(1, 3); NGrid G = randN(g, nd, nd == 3 ? 4 : 7, false, 1); std::vector<int> per(nd, 0); if (g.b(4)) for (auto& p : per) p = g.b();
    SgFindPointInCell_type* f = 0; SgFindPointInCell_new(&f, 10, 1e-8); setGrid(f, G, per);
    for (int rep = 0; rep < 8; ++rep) {
        std::vector<double> t(nd); bool integer = g.b(4); for (int i = 0; i < nd; ++i) t[i] = integer || g.b(4) ? g.i(0, G.dims[i]-1) : g.u(0, G.dims[i]-1); if (g.b(6)) for (int i = 0; i < nd; ++i) t[i] = G.dims[i]-1;
        hx::desc().str(""); HX_DESC("location " << hx::str(t) << " " << dn(G)); hx::nontrivial(g.u64());
        std::vector<std::pair<size_t, double> > w = f->getSrcIndicesAndWeights(t);
        HX_REQUIRE(w.size() == (size_t) 1 << nd, w.size() << " weights"); double s = 0; std::vector<double> mean(nd, 0.); std::set<size_t> nodes;
        for (auto& p : w) { HX_REQUIRE(p.first < (size_t) G.n(), "node index " << p.first << " of " << G.n()); HX_REQUIRE(p.second >= 0 && p.second <= 1, "weight " << p.second); s += p.second; nodes.insert(p.first); std::vector<int> v = G.inds((int) p.first); double ex = 1; for (int i = 0; i < nd; ++i) { mean[i] += p.second * v[i]; HX_REQUIRE(std::fabs(v[i]-t[i]) <= 1, "node " << p.first << " is not in the cell"); ex *= 1 - std::fabs(v[i]-t[i]); } HX_REQUIRE(hx::close(p.second, ex, 1e-14), "weight of node " << p.first << " is " << p.second << " expected " << ex); }
        HX_REQUIRE(nodes.size() == w.size(), "repeated nodes"); HX_REQUIRE(hx::close(s, 1, 1e-13), "weights add up to " << s);
        for (int i = 0; i < nd; ++i) HX_REQUIRE(hx::close(mean[i], t[i], 1e-12), "mean of the node indices is " << mean[i] << " along axis " << i);
        Buf<double> x0(t), tg(nd), pos(nd); for (auto& v : tg) v = 0; SgFindPointInCell_reset(&f, x0.p, tg.p); SgFindPointInCell_getPosition(&f, pos.p); std::vector<double> e = G.eval(t);
        for (int i = 0; i < nd; ++i) HX_REQUIRE(hx::close(pos[i], e[i], 1e-12), "position " << pos[i] << " expected " << e[i]);
        if (integer) { std::vector<int> v(nd); for (int i = 0; i < nd; ++i) v[i] = (int) t[i]; for (int i = 0; i < nd; ++i) HX_REQUIRE(hx::close(pos[i], G.c[i][G.flat(v)], 1e-13), "position of a node"); }
    }
    SgFindPointInCell_del(&f);
}
