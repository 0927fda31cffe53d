#include "geo.h"
#include "SgTriangulate.h"
static double area(const Poly& p) { Buf<double> f(flat(p)); SgTriangulate_type* t = 0; SgTriangulate_new(&t, (int) p.size(), f.p); double a = -1; SgTriangulate_getConvexHullArea(&t, &a); double b = -2; SgTriangulate_getConvexHullArea(&t, &b); HX_REQUIRE(a == b, "area is not repeatable"); SgTriangulate_del(&t); return a; }
void one_case(Rng& g) {
    int n = g.i(0, 14), mode = g.i(0, 5); Poly p(n); double sc = g.pick({1., 1., 3., 1e-6, 1e-3, 300., 1e5});
    for (auto& q : p) for (int j = 0; j < 2; ++j) switch (mode) { case 0: q[j] = g.u(-5, 5); break; case 1: q[j] = g.i(0, 3); break; case 2: q[j] = g.i(0, 2)*0.25; break; case 3: q[j] = g.i(-50, 50)/10.; break; case 4: q[j] = g.u(-1, 1); break; default: q[j] = g.u(0, 1) + (g.b(3) ? 1 : 0); }
    if (mode == 4) for (auto& q : p) { double t = g.u(0, 6.3); q = Pt{cos(t), sin(t)}; }
    if (g.b(4)) { double a = g.i(-2, 2), b = g.i(-2, 2); int k = g.i(0, n); for (int i = 0; i < k; ++i) p[i][1] = a*p[i][0] + b; }
    if (n > 1 && g.b(3)) for (int t = g.i(1, 3); t; --t) p[g.i(0, n-1)] = p[g.i(0, n-1)];
    for (auto& q : p) { q[0] *= sc; q[1] *= sc; }
    HX_DESC("points " << hx::str(flat(p)));
    double ex = hullArea(p), D = n ? diam(p) : 0, tol = 4e-6 * D * D; if (mode != 0 && mode != 4 && mode != 5) tol = 1e-9 * D * D;
    double a = area(p); if (ex > 0 && n > 3) hx::nontrivial();
    HX_REQUIRE(hx::close(a, ex, tol), "area " << a << ", the convex hull has area " << ex);
    HX_REQUIRE(a >= -1e-12*D*D, "negative area " << a);
    Poly q = p; for (int i = n - 1; i > 0; --i) std::swap(q[i], q[g.i(0, i)]);
    if (n) { for (int t = g.i(0, 2); t; --t) q.push_back(p[g.i(0, n-1)]); if (n >= 3 && g.b()) { Pt c = {0, 0}; double s = 0; for (int k = 0; k < n; ++k) { double w = g.u(); c[0] += w*p[k][0]; c[1] += w*p[k][1]; s += w; } q.push_back(Pt{c[0]/s, c[1]/s}); } }
    double b = area(q); HX_REQUIRE(hx::close(b, ex, tol), "area " << b << " instead of " << ex << " after shuffling, repeating and adding interior points: " << hx::str(flat(q)));
}
