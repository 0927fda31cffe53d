#include "hx.h"
#include "SgSideIterator.h"
void one_case(Rng& g) {
    int n = g.i(1, 6); long tot = 1; for (int i = 0; i < n; ++i) tot *= 3;
    HX_DESC("ndims " << n); hx::nontrivial(n);
    SgSideIterator_type it(n);
    HX_REQUIRE((long) it.getNumberOfElements() == tot, "number of elements " << it.getNumberOfElements());
    int rounds = g.i(1, 3);
    for (int r = 0; r < rounds; ++r) {
        if (r > 0 || g.b()) it.reset();
        if (g.b(3)) { // abandoned walk
            int k = g.i(0, (int) tot - 1); HX_DESC("abandon after " << k); for (int i = 0; i < k; ++i) { it.next(); if (g.b()) it.get(); } it.reset();
        }
        std::set<std::vector<int> > seen; int stop = 0; long k = 0;
        while (!stop) {
            std::vector<int> s = it.get();
            HX_REQUIRE((int) s.size() == n, "side has " << s.size() << " entries");
            for (int v : s) HX_REQUIRE(v == -1 || v == 0 || v == 1, "side " << hx::str(s));
            HX_REQUIRE(it.get() == s, "get is not repeatable");
            HX_REQUIRE(seen.insert(s).second, "side visited twice " << hx::str(s));
            stop = it.next(); ++k;
            HX_REQUIRE(k <= tot, "iteration does not end");
            HX_REQUIRE((stop == 1) == (k == tot) && (stop == 0 || stop == 1), "advance " << k << " of " << tot << " returned " << stop);
        }
        HX_REQUIRE((long) seen.size() == tot, "visited " << seen.size() << " of " << tot);
        HX_REQUIRE((long) it.getNumberOfElements() == tot, "number of elements changed");
    }
}
