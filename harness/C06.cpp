#include "geo.h"
#include "SgQuadIntersect.h"
void one_case(Rng& g) {
    int kind = g.i(0, 4); Poly a = randQuad(g, kind >= 2), b = randQuad(g, kind >= 2 || kind == 1);
    if (kind == 3) { int k = g.i(0, 3); for (int t = 0; t < 50; ++t) { b = randQuad(g, true); double dx = a[k][0]-b[0][0], dy = a[k][1]-b[0][1]; for (auto& p : b) { p[0] += dx; p[1] += dy; } break; } }
    if (kind == 4 && g.b()) b = a;
    if (g.b()) { double t = g.u(0, 6.28), c = cos(t), s = sin(t); if (kind >= 2) { for (auto* q : {&a, &b}) for (auto& p : *q) p = Pt{c*p[0]-s*p[1], s*p[0]+c*p[1]}; } }
    if (g.b(3)) std::reverse(a.begin(), a.end()); if (g.b(3)) std::rotate(b.begin(), b.begin()+g.i(0,3), b.end());
    double off = g.pick({0., 0., 5.}); double sc = g.pick({1., 1., 10., 0.5}); for (auto* q : {&a, &b}) for (auto& p : *q) { p[0] = sc*(p[0]+off); p[1] = sc*(p[1]-off); }
    std::vector<double> fa = flat(a), fb = flat(b);
    HX_DESC("kind " << kind << " a=" << hx::str(fa) << " b=" << hx::str(fb));
    Poly c = clip(a, b); double area = c.size() >= 3 ? polyArea(c) : 0; if (area > 1e-9) hx::nontrivial();
    bool boxes = true, strictly = false; for (int k = 0; k < 2; ++k) { double al = 1e300, ah = -1e300, bl = 1e300, bh = -1e300; for (int i = 0; i < 4; ++i) { al = std::min(al, a[i][k]); ah = std::max(ah, a[i][k]); bl = std::min(bl, b[i][k]); bh = std::max(bh, b[i][k]); }
        if (std::min(ah, bh) < std::max(al, bl)) boxes = false; if (std::min(ah, bh) < std::max(al, bl) - 1e-9*sc) strictly = true; }
    for (int sw = 0; sw < 2; ++sw) {
        Buf<double> A(sw ? fb : fa), B(sw ? fa : fb);
        SgQuadIntersect_type* o = 0; SgQuadIntersect_new(&o); SgQuadIntersect_setQuadPoints(&o, A.p, B.p);
        HX_REQUIRE(o->checkIfBoxesOverlap() == boxes, "bounding box test says " << !boxes << (sw ? " (swapped)" : ""));
        int n = -1; double* p = 0; SgQuadIntersect_getIntersectPoints(&o, &n, &p);
        HX_REQUIRE(n >= 0 && (n == 0 || p), "number of points " << n);
        if (strictly) HX_REQUIRE(n == 0, "points for quads with disjoint boxes");
        Poly P = unflat(p, n);
        for (auto& q : P) HX_REQUIRE(polyDist(q, a) <= 1e-9*sc && polyDist(q, b) <= 1e-9*sc, "point " << q[0] << "," << q[1] << " is not in both quads" << (sw ? " (swapped)" : ""));
        double h = hullArea(P);
        HX_REQUIRE(hx::close(h, area, 1e-8*sc*sc), "hull of the " << n << " points has area " << h << ", the overlap " << area << (sw ? " (swapped)" : ""));
        if (area > 1e-6*sc*sc) for (size_t ci = 0; ci < c.size(); ++ci) { const Pt& v = c[ci]; Poly rest = c; rest.erase(std::remove_if(rest.begin(), rest.end(), [&](const Pt& z) { return std::hypot(z[0]-v[0], z[1]-v[1]) < 1e-7*sc; }), rest.end()); if (rest.size() < 2 || polyDist(v, hull(rest)) < 1e-6*sc) continue; /* not a corner */ double m = 1e300; for (auto& q : P) m = std::min(m, std::hypot(v[0]-q[0], v[1]-q[1])); HX_REQUIRE(m < 1e-6*sc, "overlap vertex " << v[0] << "," << v[1] << " not reported" << (sw ? " (swapped)" : "")); }
        // point in quad
        for (int t = 0; t < 4; ++t) { Pt q; if (t < 2) q = Pt{sc*(g.u(-2,2)+off), sc*(g.u(-2,2)-off)}; else { double u = g.u(), v = g.u(); const Poly& Q = sw ? b : a; for (int k = 0; k < 2; ++k) q[k] = (1-u)*(1-v)*Q[0][k]+u*(1-v)*Q[1][k]+u*v*Q[2][k]+(1-u)*v*Q[3][k]; }
            double d = polyDist(q, sw ? b : a); double in = d > 0 ? -d : 1e300; const Poly& Q = sw ? b : a; if (d == 0) for (int i = 0; i < 4; ++i) in = std::min(in, segDist(q, Q[i], Q[(i+1)%4]));
            bool r = o->isPointInCell(&q[0], A.p); if (in > 1e-9*sc) HX_REQUIRE(r, "point inside reported outside: " << q[0] << "," << q[1]); if (in < -1e-9*sc) HX_REQUIRE(!r, "point outside reported inside: " << q[0] << "," << q[1]); }
        SgQuadIntersect_del(&o);
    }
}
