#include "flow.h"
static bool locate(const Grid& s, const Pt& p, double& I, double& J) {
    for (int c = 0; c < s.nc(); ++c) { Poly q = s.cell(c); if (polyDist(p, q) > 1e-12) continue; double xi, et; if (invBilinear(q, p, xi, et)) { I = c/(s.dims[1]-1) + xi; J = c%(s.dims[1]-1) + et; return true; } }
    return false;
}
static double bil(const Grid& s, const std::vector<double>& f, double I, double J) { int i = std::min(s.dims[0]-2, std::max(0, (int) std::floor(I))), j = std::min(s.dims[1]-2, std::max(0, (int) std::floor(J))); double u = I-i, v = J-j; int n1 = s.dims[1]; return (1-u)*(1-v)*f[i*n1+j] + u*(1-v)*f[(i+1)*n1+j] + (1-u)*v*f[i*n1+j+1] + u*v*f[(i+1)*n1+j+1]; }
static std::vector<double> proj(const std::vector<double>& q, double x0, double y0, double x1, double y1) { Buf<double> Q(q), L(std::vector<double>{x0,y0,x1,y1}); SgQuadLineFlows_type* f = 0; SgQuadLineFlows_new(&f); SgQuadLineFlows_setQuadPoints(&f, Q.p); SgQuadLineFlows_setLinePoints(&f, L.p); int ier = SgQuadLineFlows_computeProjections(&f); HX_REQUIRE(ier == 0, "projection failed with " << ier); std::vector<double> w(4); for (int e = 0; e < 4; ++e) SgQuadLineFlows_getProjection(&f, e, &w[e]); SgQuadLineFlows_del(&f); return w; }
void one_case(Rng& g) {
    if (g.b()) { // flows of a potential
        double sc = g.pick({1., 1., 10., 100., 1000.}); Grid s = makeGrid(g, 6, g.b() ? 0 : 0.2, g.i(1, 3), sc); Line l = randLine(g, s, g.i(1, 4), 0.02, 0.98);
        if (g.b()) { std::reverse(l.x.begin(), l.x.end()); std::reverse(l.y.begin(), l.y.end()); }
        HX_DESC("src " << dg(s) << " line " << hx::str(l.x) << " " << hx::str(l.y));
        std::vector<double> f(s.n()); for (auto& v : f) v = g.u(-1, 1); int n0 = s.dims[0], n1 = s.dims[1]; std::vector<double> e0((n0-1)*n1), e1(n0*(n1-1));
        for (int i = 0; i < n0-1; ++i) for (int j = 0; j < n1; ++j) e0[i*n1+j] = f[(i+1)*n1+j] - f[i*n1+j]; for (int i = 0; i < n0; ++i) for (int j = 0; j < n1-1; ++j) e1[i*(n1-1)+j] = f[i*n1+j+1] - f[i*n1+j];
        SgFlowInterp2D_type* o = 0; SgFlowInterp2D_new(&o); setSrc(o, s); setDst(o, l); SgFlowInterp2D_computeWeights(&o); int nd = (int) l.x.size()-1; Buf<double> out(nd); for (auto& v : out) v = SENT; applyF(o, e0, e1, out);
        for (int k = 0; k < nd; ++k) { double I0, J0, I1, J1; if (!locate(s, Pt{l.x[k], l.y[k]}, I0, J0) || !locate(s, Pt{l.x[k+1], l.y[k+1]}, I1, J1)) continue;
            // the straight segment must stay in the grid, away from the corners of cells
            bool in = true; for (int t = 0; t <= 200 && in; ++t) { double u = t/200., I, J; in = locate(s, Pt{l.x[k]+u*(l.x[k+1]-l.x[k]), l.y[k]+u*(l.y[k+1]-l.y[k])}, I, J); } if (!in) continue;
            { auto crosses = [&](int m, int r) { Pt a{l.x[k], l.y[k]}, b{l.x[k+1], l.y[k+1]}, c{s.x[m], s.y[m]}, d{s.x[r], s.y[r]}; return cross(a, b, c)*cross(a, b, d) <= 0 && cross(c, d, a)*cross(c, d, b) <= 0; }; // through the boundary of the grid
              for (int i = 0; i < n0-1; ++i) for (int j : {0, n1-1}) in = in && !crosses(i*n1+j, (i+1)*n1+j); for (int j = 0; j < n1-1; ++j) for (int i : {0, n0-1}) in = in && !crosses(i*n1+j, i*n1+j+1); if (!in) continue; }
            bool near = false; for (int m = 0; m < s.n(); ++m) if (segDist(Pt{s.x[m], s.y[m]}, Pt{l.x[k], l.y[k]}, Pt{l.x[k+1], l.y[k+1]}) < 1e-5*sc) near = true; if (near) continue;
            hx::nontrivial(); double ex = bil(s, f, I1, J1) - bil(s, f, I0, J0); HX_REQUIRE(hx::close(out[k], ex, 1e-5), "flow of segment " << k << " is " << out[k] << ", the potential difference " << ex); }
        SgFlowInterp2D_del(&o);
    } else { // one quad
        Grid s; do { s = makeGrid(g, 2, g.b() ? 0 : 0.15, g.i(1, 3), g.pick({1., 10.})); } while (s.nc() != 1); Poly P = s.cell(0); if (g.b()) std::rotate(P.begin(), P.begin() + g.i(0, 3), P.end()); std::vector<double> q = flat(P); double a[3], b[3]; Pt p[3];
        double I[2] = {g.u(), g.u()}, J[2] = {g.u(), g.u()}; if (g.b(4)) { I[0] = g.i(0, 1); } if (g.b(4)) J[1] = g.i(0, 1);
        for (int t = 0; t < 2; ++t) for (int k = 0; k < 2; ++k) p[t][k] = (1-I[t])*(1-J[t])*P[0][k] + I[t]*(1-J[t])*P[1][k] + I[t]*J[t]*P[2][k] + (1-I[t])*J[t]*P[3][k];
        double lam = g.u(); for (int k = 0; k < 2; ++k) p[2][k] = p[0][k] + lam*(p[1][k]-p[0][k]);
        for (int t = 0; t < 3; ++t) if (!invBilinear(P, p[t], a[t], b[t])) return;
        HX_DESC("quad " << hx::str(q) << " from " << p[0][0] << "," << p[0][1] << " to " << p[1][0] << "," << p[1][1] << " split at " << lam); hx::nontrivial();
        auto form = [&](int u, int v) { double d0 = a[v]-a[u], d1 = b[v]-b[u], m0 = .5*(a[u]+a[v]), m1 = .5*(b[u]+b[v]); return std::vector<double>{d0*(1-m1), d0*m1, d1*(1-m0), d1*m0}; };
        std::vector<double> w = proj(q, p[0][0], p[0][1], p[1][0], p[1][1]), r = proj(q, p[1][0], p[1][1], p[0][0], p[0][1]), ex = form(0, 1);
        const char* nm[] = {"x low", "x high", "y low", "y high"};
        for (int e = 0; e < 4; ++e) { HX_REQUIRE(hx::close(w[e], ex[e], 1e-7), nm[e] << " projection " << w[e] << " expected " << ex[e]); HX_REQUIRE(hx::close(w[e], -r[e], 1e-7), nm[e] << " projection " << w[e] << " reversed " << r[e]); }
        bool aff = std::fabs(P[0][0]-P[1][0]+P[2][0]-P[3][0]) + std::fabs(P[0][1]-P[1][1]+P[2][1]-P[3][1]) < 1e-12; std::vector<double> w1 = proj(q, p[0][0], p[0][1], p[2][0], p[2][1]), w2 = proj(q, p[2][0], p[2][1], p[1][0], p[1][1]);
        if (aff) for (int e = 0; e < 4; ++e) HX_REQUIRE(hx::close(w[e], w1[e]+w2[e], 1e-7), nm[e] << " projection " << w[e] << " is not the sum of the parts " << w1[e] << " " << w2[e]);
        HX_REQUIRE(hx::close(w[0]+w[1], w1[0]+w1[1]+w2[0]+w2[1], 1e-7) && hx::close(w[2]+w[3], w1[2]+w1[3]+w2[2]+w2[3], 1e-7), "total of the projections is not additive");
    }
}
