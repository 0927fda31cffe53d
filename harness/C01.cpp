#include "hx.h"
#include "SgBoxIterator.h"
void one_case(Rng& g) {
    int n = g.i(1, 4); bool big = g.b(4);
    std::vector<int> b(n), e(n); long tot = 1;
    for (int i = 0; i < n; ++i) { b[i] = g.b(3) ? 0 : g.i(-1000, 1000); long mx = big ? (n == 1 ? 2000000000L : n == 2 ? 40000 : n == 3 ? 1200 : 200) : 6; e[i] = b[i] + 1 + (int)(g.u64() % mx); tot *= e[i]-b[i]; }
    HX_DESC("box " << hx::str(b) << ".." << hx::str(e));
    Buf<int> B(b), E(e);
    SgBoxIterator_type* it = 0; SgBoxIterator_new(&it, n, B.p, E.p);
    for (auto& v : B) v = 7777; for (auto& v : E) v = -7777; // the caller's arrays may change
    int cnt = -1; SgBoxIterator_getNumberOfElements(&it, &cnt);
    HX_REQUIRE(cnt == tot, "number of elements " << cnt << " expected " << tot);
    if (n > 1 && tot > 1) hx::nontrivial();
    long step = tot <= 2000 ? 1 : tot / 500 + 1;
    for (long k = (step == 1 ? 0 : g.i(0, (int) step - 1)); k < tot; k += step) {
        std::vector<int> ex(n); long r = k; for (int i = n - 1; i >= 0; --i) { ex[i] = b[i] + (int)(r % (e[i]-b[i])); r /= e[i]-b[i]; }
        Buf<int> inds(n); for (auto& v : inds) v = -99999;
        SgBoxIterator_getElement(&it, (int) k, inds.p);
        HX_REQUIRE(inds.vec() == ex, "element " << k << " is " << hx::str(inds.vec()) << " expected " << hx::str(ex));
        int idx = -1; SgBoxIterator_getIndex(&it, inds.p, &idx);
        HX_REQUIRE(idx == k, "index of " << hx::str(ex) << " is " << idx << " expected " << k);
    }
    for (int t = 0; t < 20; ++t) {
        Buf<int> inds(n); long k = 0; for (int i = 0; i < n; ++i) { inds[i] = b[i] + (int)(g.u64() % (e[i]-b[i])); k = k*(e[i]-b[i]) + inds[i]-b[i]; }
        int idx = -1; SgBoxIterator_getIndex(&it, inds.p, &idx);
        HX_REQUIRE(idx == k, "index of " << hx::str(inds.vec()) << " is " << idx << " expected " << k);
    }
    SgBoxIterator_del(&it);
}
