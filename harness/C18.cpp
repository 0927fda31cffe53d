#include "hx.h"
#include "createGrids2D.h"
const double SENT = 1.2345e77;
void one_case(Rng& g) {
    int n0 = g.i(2, 12), n1 = g.i(2, 12), N = n0*n1; Buf<int> d(2); d[0] = n0; d[1] = n1; Buf<double> X(N), Y(N); for (auto& v : X) v = SENT; for (auto& v : Y) v = SENT; double* c[2] = {X.p, Y.p}; double sc = g.pick({1., 10., 1000., 1e-3}); bool rect = g.b(); hx::nontrivial();
    Buf<double> a(2), b(2); a[0] = sc*g.u(-2, 2); a[1] = sc*g.u(-2, 2); b[0] = sc*g.u(-2, 2); b[1] = sc*g.u(-2, 2); double r = sc*g.u(.1, 2); if (g.b(4)) a[0] = a[1] = 0; if (g.b(6)) r = -r;
    std::vector<double> a0 = a.vec(), b0 = b.vec();
    HX_DESC((rect ? "rectangular " : "polar ") << n0 << "x" << n1 << " " << a[0] << "," << a[1] << " " << b[0] << "," << b[1] << " radius " << r);
    if (rect) createRectangularGrid(d.p, a.p, b.p, c); else { createPolarGrid(d.p, a.p, r, c); }
    HX_REQUIRE(c[0] == X.p && c[1] == Y.p && d[0] == n0 && d[1] == n1 && a.vec() == a0 && b.vec() == b0, "the arguments were modified");
    for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) { int k = i*n1+j; double x, y, t = 1e-11*sc; if (rect) { x = a[0] + (b[0]-a[0])*i/(n0-1); y = a[1] + (b[1]-a[1])*j/(n1-1); } else { double rho = a[0] + r*i/(n0-1), th = a[1] + 2*M_PI*j/(n1-1); x = rho*cos(th); y = rho*sin(th); t *= 1 + sc; }
        HX_REQUIRE(hx::close(X[k], x, t) && hx::close(Y[k], y, t), "node " << i << "," << j << " is at " << X[k] << "," << Y[k] << " expected " << x << "," << y); }
}
