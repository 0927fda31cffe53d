#include "hx.h"
typedef long double LD;
#include "SgLinearSolve.h"
// singular values via Jacobi on the smaller Gram matrix
static double cond(const std::vector<double>& A, int m, int n) { int k = std::min(m, n); std::vector<std::vector<double> > G(k, std::vector<double>(k, 0.)); for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) { if (n <= m) for (int r = 0; r < m; ++r) G[i][j] += A[r*n+i]*A[r*n+j]; else for (int c = 0; c < n; ++c) G[i][j] += A[i*n+c]*A[j*n+c]; }
    for (int s = 0; s < 60; ++s) for (int p = 0; p < k; ++p) for (int q = p+1; q < k; ++q) { if (std::fabs(G[p][q]) < 1e-300) continue; double th = .5*std::atan2(2*G[p][q], G[q][q]-G[p][p]), c = cos(th), sn = sin(th); for (int i = 0; i < k; ++i) { double a = G[i][p], b = G[i][q]; G[i][p] = c*a-sn*b; G[i][q] = sn*a+c*b; } for (int i = 0; i < k; ++i) { double a = G[p][i], b = G[q][i]; G[p][i] = c*a-sn*b; G[q][i] = sn*a+c*b; } }
    double lo = 1e300, hi = 0; for (int i = 0; i < k; ++i) { lo = std::min(lo, G[i][i]); hi = std::max(hi, G[i][i]); } return lo > 0 ? std::sqrt(hi/lo) : 1e300; }
void one_case(Rng& g) {
    int m = g.i(1, 7), n = g.b() ? m : g.i(1, 7); SgLinearSolve_type* o = 0; SgLinearSolve_new(&o, m, n); HX_DESC(m << " x " << n);
    for (int rep = 0, reps = g.i(1, 3); rep < reps; ++rep) { std::vector<double> A(m*n), b(m); double sc = g.pick({1., 1., 10., 1e-3}); do { for (auto& v : A) v = sc*(g.b(4) ? g.i(-3, 3) : g.u(-1, 1)); if (g.b(4) && m == n) for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A[i*n+j] = (j == (i+1)%n) ? sc*g.u(.5, 1) : 0; } while (cond(A, m, n) > 1e4); for (auto& v : b) v = g.u(-1, 1); if (m > n && g.b(3)) { std::vector<double> x0(n); for (auto& v : x0) v = g.u(-1, 1); for (int i = 0; i < m; ++i) { b[i] = 0; for (int j = 0; j < n; ++j) b[i] += A[i*n+j]*x0[j]; } }
        HX_DESC("A " << hx::str(A) << " b " << hx::str(b)); hx::nontrivial(); Buf<double> MA(A), MB(b); if (g.b()) { SgLinearSolve_setMatrix(&o, MA.p); SgLinearSolve_setRightHandSide(&o, MB.p); } else { SgLinearSolve_setRightHandSide(&o, MB.p); SgLinearSolve_setMatrix(&o, MA.p); } int ier = SgLinearSolve_solve(&o); HX_REQUIRE(ier == 0, "solve returned " << ier); HX_REQUIRE(MA.vec() == A && MB.vec() == b, "the caller's arrays were modified"); double* x = 0; SgLinearSolve_getSolution(&o, &x); double res = -1; SgLinearSolve_getResidual(&o, &res);
        std::vector<double> r(m); double sum = 0, nx = 0; for (int j = 0; j < n; ++j) nx = std::max(nx, std::fabs(x[j])); for (int i = 0; i < m; ++i) { LD t = -(LD) b[i]; for (int j = 0; j < n; ++j) t += (LD) A[i*n+j]*x[j]; r[i] = (double) t; sum += std::fabs(r[i]); } double tol = 1e-9*(1+sc*nx);
        HX_REQUIRE(hx::close(res, sum, tol), "residual " << res << " expected " << sum); if (n >= m) HX_REQUIRE(sum < tol, "residual of a solvable system is " << sum << " x " << hx::strp(x, n)); for (int j = 0; j < n; ++j) { double t = 0; for (int i = 0; i < m; ++i) t += A[i*n+j]*r[i]; HX_REQUIRE(std::fabs(t) < tol*sc, "the residual is not minimal: gradient " << t << " x " << hx::strp(x, n)); } }
    SgLinearSolve_del(&o);
}
