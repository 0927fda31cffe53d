#include "hx.h"
#include "SgOctreePoints.h"
void one_case(Rng& g) {
    int nd = g.i(1, 3), lev = g.i(1, nd == 3 ? 3 : 4), np = g.i(2, 12); double sc = g.pick({1., 1., 100., 1e-3}); std::vector<double> pts; double off = g.pick({0., 1., -3.})*sc;
    for (int i = 0; i < np*nd; ++i) pts.push_back(off + sc*(g.b(3) ? g.i(-4, 4)*.25 : g.u(-1, 1))); std::vector<double> lo(nd, 1e300), hi(nd, -1e300); for (int i = 0; i < np*nd; ++i) { lo[i%nd] = std::min(lo[i%nd], pts[i]); hi[i%nd] = std::max(hi[i%nd], pts[i]); } for (int j = 0; j < nd; ++j) if (hi[j]-lo[j] < 0.1*sc) return;
    HX_DESC("ndims " << nd << " levels " << lev << " points " << hx::str(pts)); hx::nontrivial(); Buf<double> P(pts); SgOctreePoints_type* o = 0; SgOctreePoints_new(&o, lev, nd, np, P.p); for (auto& v : P) v = 1e200;
    double tol = 1e-12*sc*4; std::vector<size_t> root; for (int j = 0; j < nd; ++j) HX_REQUIRE(o->getLo(root)[j] == lo[j] && o->getHi(root)[j] == hi[j], "domain box along axis " << j);
    int q = 1 << nd; std::vector<std::vector<size_t> > cur(1, root);
    for (int l = 1; l <= lev; ++l) { std::vector<std::vector<size_t> > nxt; std::set<std::vector<long> > seen; for (auto& k : cur) for (int c = 0; c < q; ++c) { std::vector<size_t> k2 = k; k2.push_back(c); const std::vector<double>&a = o->getLo(k2), &b = o->getHi(k2), &pa = o->getLo(k), &pb = o->getHi(k); HX_REQUIRE(a.size() == (size_t) nd && b.size() == (size_t) nd, "box of key " << hx::str(k2)); std::vector<long> pos;
            for (int j = 0; j < nd; ++j) { double h = (hi[j]-lo[j])/(1 << l); HX_REQUIRE(hx::close(b[j]-a[j], h, tol), "box of key " << hx::str(k2) << " has extent " << b[j]-a[j] << " along axis " << j << " expected " << h); bool L = hx::close(a[j], pa[j], tol) && hx::close(b[j], .5*(pa[j]+pb[j]), tol), H = hx::close(b[j], pb[j], tol) && hx::close(a[j], .5*(pa[j]+pb[j]), tol); HX_REQUIRE(L || H, "box of key " << hx::str(k2) << " is not a half of its parent along axis " << j << ": " << a[j] << ".." << b[j] << " in " << pa[j] << ".." << pb[j]); pos.push_back(std::lround((a[j]-lo[j])/h)); }
            HX_REQUIRE(seen.insert(pos).second, "two boxes of level " << l << " coincide at key " << hx::str(k2)); nxt.push_back(k2); } cur = nxt; }
    for (int t = 0; t < np+10; ++t) { Buf<double> x(nd); for (int j = 0; j < nd; ++j) { if (t < np) x[j] = pts[t*nd+j]; else { double u = g.b(3) ? g.i(0, 16)/16. : g.u(); x[j] = std::min(hi[j], std::max(lo[j], lo[j] + u*(hi[j]-lo[j]))); } } std::vector<size_t> prev; for (int l = 0; l <= lev; ++l) { std::vector<size_t> k = o->getKey(x.p, l); HX_REQUIRE(k.size() == (size_t) l, "key of level " << l << " has length " << k.size()); for (auto v : k) HX_REQUIRE(v < (size_t) q, "key " << hx::str(k)); if (l) { std::vector<size_t> c(k.begin(), k.end()-1); HX_REQUIRE(c == prev, "key " << hx::str(k) << " does not extend " << hx::str(prev)); }
            const std::vector<double>&a = o->getLo(k), &b = o->getHi(k); for (int j = 0; j < nd; ++j) { HX_REQUIRE(hx::close(b[j]-a[j], (hi[j]-lo[j])/(1 << l), tol), "key " << hx::str(k) << " designates no box of level " << l); HX_REQUIRE(x[j] >= a[j]-tol && x[j] <= b[j]+tol, "point " << hx::strp(x.p, nd) << " is not in the box of its key " << hx::str(k) << " along axis " << j); } prev = k; } }
    SgOctreePoints_del(&o);
}
