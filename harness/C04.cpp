#include "interp.h"
void one_case(Rng& g) {
    Grid s, d; do { randPair(g, s, d); } while (!anyWeights(s, d));
    HX_DESC("src " << dg(s) << " dst " << dg(d));
    SgConserveInterp2D_type* o = 0; SgConserveInterp2D_new(&o); setSrc(o, s); setDst(o, d); SgConserveInterp2D_computeWeights(&o);
    std::vector<bool> t; W m = matrixOf(o, s.nc(), d.nc(), t);
    if (g.b(3)) { // abandoned walk
        SgConserveInterp2D_reset(&o); int k = g.i(0, 5); for (int i = 0; i < k; ++i) if (SgConserveInterp2D_next(&o)) break;
    }
    std::vector<Entry> a = iterate(o, 100000);
    if (a.size() > 2) hx::nontrivial();
    std::set<std::pair<int,int> > seen;
    for (size_t i = 0; i < a.size(); ++i) {
        HX_REQUIRE(a[i].dst >= 0 && a[i].dst < d.nc() && a[i].src >= 0 && a[i].src < s.nc(), "entry out of range: dst " << a[i].dst << " src " << a[i].src);
        HX_REQUIRE(seen.insert(std::make_pair(a[i].dst, a[i].src)).second, "entry dst " << a[i].dst << " src " << a[i].src << " visited twice");
        if (i) HX_REQUIRE(a[i].dst >= a[i-1].dst, "destination cells out of order at entry " << i);
        auto k = std::make_pair(a[i].dst, a[i].src); double v = m.count(k) ? m[k] : 0;
        HX_REQUIRE(hx::close(v, a[i].w, 1e-13*(1+std::fabs(v))), "entry dst " << a[i].dst << " src " << a[i].src << " weight " << a[i].w << " but applying uses " << v);
    }
    for (auto& e : m) HX_REQUIRE(seen.count(e.first), "weight dst " << e.first.first << " src " << e.first.second << " never visited");
    // after the end the iteration starts again from the first entry, with and without reset
    std::vector<Entry> b; int end = 0; while (!end && b.size() <= a.size()) { Entry e; SgConserveInterp2D_get(&o, &e.src, &e.dst, &e.w); b.push_back(e); end = SgConserveInterp2D_next(&o); }
    HX_REQUIRE(b == a, "second walk without reset differs: " << b.size() << " vs " << a.size() << " entries");
    HX_REQUIRE(iterate(o, 100000) == a, "second walk after reset differs");
    SgConserveInterp2D_del(&o);
}
