#include "geo.h"
#include "SgQuadLineIntersect.h"
void one_case(Rng& g) {
    int kind = g.i(0, 4); Poly q = randQuad(g, kind >= 2); Pt a, b; auto onq = [&](bool edge) { if (edge) { int i = g.i(0, 3); double t = g.b(3) ? 0 : g.u(); return Pt{q[i][0]+t*(q[(i+1)%4][0]-q[i][0]), q[i][1]+t*(q[(i+1)%4][1]-q[i][1])}; } double u = g.u(), v = g.u(); Pt r; for (int k = 0; k < 2; ++k) r[k] = (1-u)*(1-v)*q[0][k]+u*(1-v)*q[1][k]+u*v*q[2][k]+(1-u)*v*q[3][k]; return r; };
    auto any = [&]() { switch (g.i(0, 3)) { case 0: return onq(true); case 1: return onq(false); case 2: return Pt{g.i(-8, 8)*.5, g.i(-8, 8)*.5}; default: return Pt{g.u(-3, 3), g.u(-3, 3)}; } };
    do { a = any(); b = any(); } while (std::hypot(a[0]-b[0], a[1]-b[1]) < 0.05);
    if (g.b(5)) { int i = g.i(0, 3); Pt c = q[i], d = q[(i+1)%4]; double t0 = g.u(-1, 1), t1 = g.u(0.2, 2); for (int k = 0; k < 2; ++k) { a[k] = c[k]+t0*(d[k]-c[k]); b[k] = c[k]+(t0+t1)*(d[k]-c[k]); } }
    if (g.b(3)) std::reverse(q.begin(), q.end()); double sc = g.pick({1., 1., 10., 0.5}), off = g.pick({0., 0., 3.}); for (auto& p : q) for (int k = 0; k < 2; ++k) p[k] = sc*(p[k]+off); for (int k = 0; k < 2; ++k) { a[k] = sc*(a[k]+off); b[k] = sc*(b[k]+off); }
    if (g.b(3)) { double t = g.u(0, 6.28), c = cos(t), s = sin(t); auto rot = [&](Pt p) { return Pt{c*p[0]-s*p[1], s*p[0]+c*p[1]}; }; for (auto& p : q) p = rot(p); a = rot(a); b = rot(b); }
    Buf<double> Q(flat(q)), L(std::vector<double>{a[0], a[1], b[0], b[1]}); HX_DESC("quad " << hx::str(flat(q)) << " segment " << hx::str(L.vec()));
    // clip the segment against the (counterclockwise) quad, pushed out by a tiny amount and pulled in by it
    Poly P = ccw(q); double len = std::hypot(b[0]-a[0], b[1]-a[1]), off2 = 1e-10*sc; LD tt[2][2]; double parts[2];
    for (int w = 0; w < 2; ++w) { LD t0 = 0, t1 = 1, h = w ? -off2 : off2; bool out = false; for (int i = 0; i < 4; ++i) { const Pt &c = P[i], &d = P[(i+1)%4]; LD l = std::hypot(d[0]-c[0], d[1]-c[1]), fa = cross(c, d, a)/l + h, fb = cross(c, d, b)/l + h; if (fa < 0 && fb < 0) { out = true; continue; } if (fa >= 0 && fb >= 0) continue; LD t = fa/(fa-fb); if (fa < 0) t0 = std::max(t0, t); else t1 = std::min(t1, t); } tt[w][0] = t0; tt[w][1] = t1; parts[w] = out ? 0 : std::max(0., (double) (t1-t0)*len); }
    double part = parts[0]; bool along = std::fabs(parts[0]-parts[1]) > 1e-8*sc; /* runs along an edge */ if (parts[1] > 1e-6*sc) hx::nontrivial();
    double dist = 1e300; { // distance of segment and quad when they are apart
        if (part <= 0) { for (auto& p : q) dist = std::min(dist, segDist(p, a, b)); dist = std::min(dist, std::min(polyDist(a, q), polyDist(b, q))); } else dist = 0; }
    SgQuadLineIntersect_type* o = 0; SgQuadLineIntersect_new(&o); if (g.b()) { SgQuadLineIntersect_setQuadPoints(&o, Q.p); SgQuadLineIntersect_setLinePoints(&o, L.p); } else { SgQuadLineIntersect_setLinePoints(&o, L.p); SgQuadLineIntersect_setQuadPoints(&o, Q.p); }
    int n = -1; double* p = 0; SgQuadLineIntersect_collectIntersectPoints(&o, &n, &p); HX_REQUIRE(n >= 0 && n <= 6 && (n == 0 || p), n << " points");
    double tl = -1e300; for (int i = 0; i < n; ++i) { Pt x{p[2*i], p[2*i+1]}; HX_REQUIRE(segDist(x, a, b) <= 1e-9*sc, "point " << x[0] << "," << x[1] << " is not on the segment"); HX_REQUIRE(polyDist(x, q) <= 1e-9*sc, "point " << x[0] << "," << x[1] << " is not in the quad");
        double t = ((x[0]-a[0])*(b[0]-a[0]) + (x[1]-a[1])*(b[1]-a[1]))/(len*len); HX_REQUIRE(t >= tl - 1e-12, "points are out of order at " << i); tl = t; }
    if (dist > 1e-9*sc) HX_REQUIRE(n == 0, n << " points, but the segment is outside");
    if (parts[1] > 1e-6*sc) { HX_REQUIRE(n >= 2, n << " points, but a part of length " << part << " lies in the quad"); for (int e = 0; e < 2; ++e) { int i = e ? n-1 : 0; double t = (double) tt[0][e]; double d = std::hypot(a[0]+t*(b[0]-a[0])-p[2*i], a[1]+t*(b[1]-a[1])-p[2*i+1]); HX_REQUIRE(d < (along ? 1e-6 : 1e-8)*sc, (e ? "last" : "first") << " point " << p[2*i] << "," << p[2*i+1] << " is not the end of the part in the quad, at " << t << " along " << along); } }
    HX_REQUIRE(Q.vec() == flat(q) && L[0] == a[0] && L[1] == a[1] && L[2] == b[0] && L[3] == b[1], "the caller's points were modified");
    SgQuadLineIntersect_del(&o);
}
