// Independent geometry oracles.
#ifndef GEO_H
#define GEO_H
#include "hx.h"
typedef std::array<double, 2> Pt;
typedef std::vector<Pt> Poly;
typedef long double LD;
inline LD cross(const Pt& a, const Pt& b, const Pt& c) { return ((LD)b[0]-a[0])*((LD)c[1]-a[1]) - ((LD)b[1]-a[1])*((LD)c[0]-a[0]); }
inline double polyArea(const Poly& p) { LD a = 0; for (size_t i = 1; i + 1 < p.size(); ++i) a += cross(p[0], p[i], p[i+1]); return (double)(a/2); }
inline Poly hull(Poly p) {
    std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
    int n = p.size(); if (n < 3) return p; Poly h(2*n); int k = 0;
    for (int i = 0; i < n; i++) { while (k >= 2 && cross(h[k-2], h[k-1], p[i]) <= 0) k--; h[k++] = p[i]; }
    for (int i = n-2, t = k+1; i >= 0; i--) { while (k >= t && cross(h[k-2], h[k-1], p[i]) <= 0) k--; h[k++] = p[i]; }
    h.resize(k - 1); return h;
}
inline double hullArea(const Poly& p) { Poly h = hull(p); return h.size() < 3 ? 0 : polyArea(h); }
inline Poly ccw(Poly p) { if (polyArea(p) < 0) std::reverse(p.begin(), p.end()); return p; }
// overlap of two convex polygons (Sutherland-Hodgman)
inline Poly clip(Poly a, const Poly& b0) {
    Poly b = ccw(b0); a = ccw(a);
    for (size_t e = 0; e < b.size() && a.size(); ++e) {
        const Pt& p = b[e]; const Pt& q = b[(e+1) % b.size()]; Poly r;
        for (size_t i = 0; i < a.size(); ++i) {
            const Pt& s = a[i]; const Pt& t = a[(i+1) % a.size()];
            LD cs = cross(p, q, s), ct = cross(p, q, t);
            if (cs >= 0) r.push_back(s);
            if ((cs > 0 && ct < 0) || (cs < 0 && ct > 0)) { LD f = cs / (cs - ct);
                r.push_back(Pt{(double)(s[0] + f*((LD)t[0]-s[0])), (double)(s[1] + f*((LD)t[1]-s[1]))}); }
        }
        a = r;
    }
    return a;
}
inline double diam(const Poly& p) { double d = 0; for (auto& a : p) for (auto& b : p) d = std::max(d, std::hypot(a[0]-b[0], a[1]-b[1])); return d; }
// strictly convex with margin: every corner turns by at least sin >= m
inline bool convexQuad(const Poly& q, double m) {
    double s = 0;
    for (int i = 0; i < 4; ++i) {
        const Pt &a = q[i], &b = q[(i+1)%4], &c = q[(i+2)%4];
        double l = std::hypot(b[0]-a[0], b[1]-a[1]) * std::hypot(c[0]-b[0], c[1]-b[1]);
        if (!(l > 0)) return false;
        double x = (double) cross(a, b, c) / l;
        if (i == 0) s = x > 0 ? 1 : -1;
        if (x * s < m) return false;
    }
    return true;
}
inline double segDist(const Pt& p, const Pt& a, const Pt& b) {
    double dx = b[0]-a[0], dy = b[1]-a[1], l = dx*dx+dy*dy, t = l > 0 ? ((p[0]-a[0])*dx+(p[1]-a[1])*dy)/l : 0;
    t = std::min(1., std::max(0., t)); return std::hypot(p[0]-a[0]-t*dx, p[1]-a[1]-t*dy);
}
// distance from a convex polygon, 0 inside
inline double polyDist(const Pt& p, const Poly& q0) {
    Poly q = ccw(q0); bool in = true; double d = 1e300;
    for (size_t i = 0; i < q.size(); ++i) { if (cross(q[i], q[(i+1)%q.size()], p) < 0) in = false; d = std::min(d, segDist(p, q[i], q[(i+1)%q.size()])); }
    return in ? 0 : d;
}
inline bool wellShaped(const Poly& q, double m = 0.1) {
    if (!convexQuad(q, m)) return false;
    double lo = 1e300, hi = 0;
    for (int i = 0; i < 4; ++i) { double l = std::hypot(q[i][0]-q[(i+1)%4][0], q[i][1]-q[(i+1)%4][1]); lo = std::min(lo, l); hi = std::max(hi, l); }
    return lo > 0.1 * hi;
}
// structured grid of nodes
struct Grid {
    int dims[2]; std::vector<double> x, y;
    int n() const { return dims[0] * dims[1]; }
    int nc() const { return (dims[0]-1) * (dims[1]-1); }
    Pt at(int i, int j) const { int k = i*dims[1]+j; return Pt{x[k], y[k]}; }
    Poly cell(int c) const { int i = c / (dims[1]-1), j = c % (dims[1]-1); return Poly{at(i,j), at(i+1,j), at(i+1,j+1), at(i,j+1)}; }
    double cellSize() const { double s = 0; for (int c = 0; c < nc(); ++c) s = std::max(s, diam(cell(c))); return s; }
    bool ok(double m = 0.1) const { double lo = 1e300, hi = 0; for (int c = 0; c < nc(); ++c) { Poly q = cell(c); if (!wellShaped(q, m)) return false; double a = polyArea(q); if (a * polyArea(cell(0)) < 0) return false; lo = std::min(lo, std::fabs(a)); hi = std::max(hi, std::fabs(a)); } return lo > 0.02 * hi; }
};
// affine image of the unit index grid, with optional jitter of the nodes (fraction of a cell)
inline Grid makeGrid(Rng& g, int maxd, double jitter, int style, double scale = 1) {
    for (int tries = 0;; ++tries) {
        Grid r; r.dims[0] = g.i(2, maxd); r.dims[1] = g.i(2, maxd);
        double a11, a12, a21, a22, b1, b2;
        if (style == 0) { // axis aligned, dyadic
            a11 = g.pick({0.25, 0.5, 1., 2.}); a22 = g.pick({0.25, 0.5, 1., 2.}); a12 = a21 = 0; b1 = g.i(-4, 4)*0.25; b2 = g.i(-4, 4)*0.25;
            if (g.b(4)) std::swap(a11, a12), std::swap(a21, a22);
            if (g.b(4)) a11 = -a11, a12 = -a12;
        } else if (style == 1) { // axis aligned, arbitrary
            a11 = g.u(0.2, 2); a22 = g.u(0.2, 2); a12 = a21 = 0; b1 = g.u(-2, 2); b2 = g.u(-2, 2);
        } else { // any affine
            double t = style == 2 ? g.u(0, 2*M_PI) : g.i(0, 7)*M_PI/4, s = g.u(-0.4, 0.4), l1 = g.u(0.3, 1.5), l2 = g.u(0.3, 1.5); if (style == 3) { s = 0; l1 = l2 = 1; }
            a11 = l1*cos(t); a21 = l1*sin(t); a12 = l2*(-sin(t) + s*cos(t)); a22 = l2*(cos(t) + s*sin(t)); b1 = g.u(-2, 2); b2 = g.u(-2, 2); if (style == 3) { b1 = g.i(-2,2); b2 = g.i(-2,2);} if (g.b(3)) a12 = -a12, a22 = -a22;
        }
        for (int i = 0; i < r.dims[0]; ++i) for (int j = 0; j < r.dims[1]; ++j) {
            double u = i, v = j;
            if (jitter > 0) { u += g.u(-jitter, jitter); v += g.u(-jitter, jitter); }
            r.x.push_back(scale*(b1 + a11*u + a12*v)); r.y.push_back(scale*(b2 + a21*u + a22*v));
        }
        if (r.ok(jitter > 0 ? 0.15 : 0.05)) return r;
        if (tries > 50) jitter *= 0.8;
    }
}
inline Poly randQuad(Rng& g, bool lattice) {
    for (;;) {
        Poly q;
        if (lattice) { int s = g.pick({1, 2, 4}); for (int i = 0; i < 4; ++i) q.push_back(Pt{g.i(-4, 4)/(double)s, g.i(-4, 4)/(double)s}); }
        else for (int i = 0; i < 4; ++i) q.push_back(Pt{g.u(-2, 2), g.u(-2, 2)});
        if (wellShaped(q, 0.1) && std::fabs(polyArea(q)) > 0.05) return q;
    }
}
inline std::vector<double> flat(const Poly& p) { std::vector<double> f; for (auto& a : p) { f.push_back(a[0]); f.push_back(a[1]); } return f; }
inline Poly unflat(const double* p, int n) { Poly r; for (int i = 0; i < n; ++i) r.push_back(Pt{p[2*i], p[2*i+1]}); return r; }
// index location of p in convex cell q = (00),(10),(11),(01): inverse bilinear map by analytic Newton
inline bool invBilinear(const Poly& q, const Pt& p, double& xi, double& eta) {
    xi = eta = 0.5;
    for (int it = 0; it < 60; ++it) {
        double fx[2], J[2][2];
        for (int k = 0; k < 2; ++k) {
            double a = q[0][k], b = q[1][k]-q[0][k], c = q[3][k]-q[0][k], d = q[2][k]-q[1][k]-q[3][k]+q[0][k];
            fx[k] = a + b*xi + c*eta + d*xi*eta - p[k]; J[k][0] = b + d*eta; J[k][1] = c + d*xi;
        }
        double det = J[0][0]*J[1][1]-J[0][1]*J[1][0];
        double dx = (fx[0]*J[1][1]-fx[1]*J[0][1])/det, dy = (J[0][0]*fx[1]-J[1][0]*fx[0])/det;
        xi -= dx; eta -= dy;
        if (!(std::fabs(xi) < 10 && std::fabs(eta) < 10)) return false;
        if (std::fabs(dx) + std::fabs(dy) < 1e-14) break;
    }
    return xi > -1e-9 && xi < 1+1e-9 && eta > -1e-9 && eta < 1+1e-9;
}
#endif
