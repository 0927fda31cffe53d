#ifndef FP_H
#define FP_H
#include "geo.h"
#include "SgFindPointInCell.h"
struct NGrid { int nd; std::vector<int> dims; std::vector<std::vector<double> > c; int n() const { int t = 1; for (int d : dims) t *= d; return t; }
    std::vector<int> inds(int k) const { std::vector<int> r(nd); for (int i = nd-1; i >= 0; --i) { r[i] = k % dims[i]; k /= dims[i]; } return r; }
    int flat(const std::vector<int>& v) const { int k = 0; for (int i = 0; i < nd; ++i) k = k*dims[i] + v[i]; return k; }
    // independent multilinear evaluation
    std::vector<double> eval(const std::vector<double>& t) const { std::vector<double> r(nd, 0.); for (int m = 0; m < (1 << nd); ++m) { double w = 1; std::vector<int> v(nd); for (int i = 0; i < nd; ++i) { int l = (int) std::floor(t[i]); l = std::max(0, std::min(dims[i]-2, l)); double f = t[i] - l; int hi = m >> i & 1; v[i] = l + hi; w *= hi ? f : 1 - f; } int k = flat(v); for (int i = 0; i < nd; ++i) r[i] += w * c[i][k]; } return r; } };
inline NGrid randN(Rng& g, int nd, int maxd, bool affine, double sc) {
    NGrid r; r.nd = nd; for (int i = 0; i < nd; ++i) r.dims.push_back(g.i(2, maxd));
    for (;;) { std::vector<std::vector<double> > A(nd, std::vector<double>(nd)); std::vector<double> b(nd); bool diag = g.b(); for (int i = 0; i < nd; ++i) { b[i] = g.b(3) ? 0 : g.u(-3, 3); for (int j = 0; j < nd; ++j) A[i][j] = i == j ? g.pick({1., -1.}) * g.u(0.3, 2) : diag ? 0 : g.u(-0.25, 0.25)/nd; }
        if (nd > 1 && g.b(3)) std::swap(A[0], A[1]);
        r.c.assign(nd, std::vector<double>(r.n())); for (int k = 0; k < r.n(); ++k) { std::vector<int> v = r.inds(k); std::vector<double> t(nd); for (int j = 0; j < nd; ++j) t[j] = v[j] + (affine ? 0 : g.u(-0.15, 0.15)); for (int i = 0; i < nd; ++i) { double s = b[i]; for (int j = 0; j < nd; ++j) s += A[i][j]*t[j]; r.c[i][k] = sc*s; } }
        return r; }
}
inline void setGrid(SgFindPointInCell_type* f, const NGrid& G, const std::vector<int>& per) { std::vector<Buf<double>*> b; std::vector<const double*> p; for (auto& c : G.c) { b.push_back(new Buf<double>(c)); p.push_back(b.back()->p); } Buf<int> d(G.dims), q(per); Buf<const double*> P(p); SgFindPointInCell_setGrid(&f, G.nd, d.p, q.p, P.p); for (auto* x : b) delete x; }
inline std::string dn(const NGrid& G) { std::string s = "dims " + hx::str(G.dims); for (auto& c : G.c) s += " " + hx::str(c); return s; }
#endif
