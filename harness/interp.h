// shared drivers of the interpolation objects
#ifndef INTERP_H
#define INTERP_H
#include "geo.h"
#include "SgConserveInterp2D.h"
#include "SgNodeInterp2D.h"
typedef std::map<std::pair<int,int>, double> W; // (dst, src) -> weight
struct Coords { Buf<double> x, y; const double* c[2]; Coords(const Grid& g) : x(g.x), y(g.y) { c[0] = x.p; c[1] = y.p; }
    Coords(const std::vector<double>& a, const std::vector<double>& b) : x(a), y(b) { c[0] = x.p; c[1] = y.p; } };
inline void setSrc(SgConserveInterp2D_type* o, const Grid& s) { Coords c(s); Buf<int> d(2), p(2); for (int i = 0; i < 2; ++i) { d[i] = s.dims[i]; p[i] = 0; } SgConserveInterp2D_setSrcGrid(&o, d.p, p.p, c.c); }
inline void setDst(SgConserveInterp2D_type* o, const Grid& s) { Coords c(s); Buf<int> d(2); for (int i = 0; i < 2; ++i) d[i] = s.dims[i]; SgConserveInterp2D_setDstGrid(&o, d.p, c.c); }
inline void setSrc(SgNodeInterp2D_type* o, const Grid& s, int per0 = 0, int per1 = 0) { Coords c(s); Buf<int> d(2), p(2); for (int i = 0; i < 2; ++i) d[i] = s.dims[i]; p[0] = per0; p[1] = per1; SgNodeInterp2D_setSrcGrid(&o, d.p, p.p, c.c); }
inline void setDst(SgNodeInterp2D_type* o, const Grid& s) { Coords c(s); Buf<int> d(2); for (int i = 0; i < 2; ++i) d[i] = s.dims[i]; SgNodeInterp2D_setDstGrid(&o, d.p, c.c); }
struct Entry { int dst, src; double w; bool operator==(const Entry& o) const { return dst == o.dst && src == o.src && (w == o.w); } };
const double SENT = 1.2345e77;
inline double apply1(SgConserveInterp2D_type* o, const std::vector<double>& src, Buf<double>& out) { Buf<double> s(src); SgConserveInterp2D_apply(&o, s.p, out.p); for (size_t i = 0; i < s.n; ++i) HX_REQUIRE(!(s[i] != src[i]), "apply modified the source"); return 0; }
inline double apply1(SgNodeInterp2D_type* o, const std::vector<double>& src, Buf<double>& out) { Buf<double> s(src); SgNodeInterp2D_apply(&o, s.p, out.p); for (size_t i = 0; i < s.n; ++i) HX_REQUIRE(!(s[i] != src[i]), "apply modified the source"); return 0; }
// matrix of the interpolation from unit fields; touched: destinations that are written
template <class O> W matrixOf(O* o, int nsrc, int ndst, std::vector<bool>& touched) {
    W m; touched.assign(ndst, false);
    for (int s = 0; s < nsrc; ++s) {
        std::vector<double> f(nsrc, 0.); f[s] = 1; Buf<double> d(ndst); for (auto& v : d) v = SENT;
        apply1(o, f, d);
        for (int i = 0; i < ndst; ++i) { bool t = d[i] != SENT;
            if (s == 0) touched[i] = t; else HX_REQUIRE(touched[i] == t, "which destinations are written depends on the source field, dst " << i);
            if (t && d[i] != 0) m[std::make_pair(i, s)] = d[i]; }
    }
    return m;
}
inline bool anyWeights(const Grid& src, const Grid& dst) { // generous oracle: some pair overlaps
    for (int i = 0; i < dst.nc(); ++i) for (int j = 0; j < src.nc(); ++j) { Poly c = clip(dst.cell(i), src.cell(j)); if (c.size() >= 3 && polyArea(c) > 1e-4 * std::fabs(polyArea(dst.cell(i)))) return true; }
    return false;
}
inline std::vector<Entry> iterate(SgConserveInterp2D_type* o, size_t limit) {
    std::vector<Entry> r; SgConserveInterp2D_reset(&o); int end = 0;
    while (!end) { Entry e; e.dst = e.src = -1; e.w = -1; SgConserveInterp2D_get(&o, &e.src, &e.dst, &e.w); r.push_back(e); end = SgConserveInterp2D_next(&o);
        HX_REQUIRE(end == 0 || end == 1, "next returned " << end); HX_REQUIRE(r.size() <= limit, "the iteration does not end"); }
    return r;
}
inline std::string dg(const Grid& g) { std::ostringstream o; o.precision(17); o << g.dims[0] << "x" << g.dims[1] << " x=" << hx::str(g.x) << " y=" << hx::str(g.y); return o.str(); }
inline void randPair(Rng& g, Grid& s, Grid& d, int maxd = 5) { int st = g.i(0, 3); double sc = g.pick({1., 1., 1., 10., 100.});
    s = makeGrid(g, maxd, g.b() ? 0 : 0.25, st, sc); d = makeGrid(g, maxd, g.b() ? 0 : 0.25, g.b() ? st : g.i(0, 3), sc); }
#endif
