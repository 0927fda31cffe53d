#include "hx.h"
#include "createGrids2D.h"
#include "SgTripolarGrid.h"
const double SENT = 1.2345e77;
typedef std::array<double, 3> V3;
static V3 sph(double lat, double lon) { lat *= M_PI/180; lon *= M_PI/180; return V3{cos(lat)*cos(lon), cos(lat)*sin(lon), sin(lat)}; }
static double dist(const V3& a, const V3& b) { return std::sqrt((a[0]-b[0])*(a[0]-b[0]) + (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2])); }
static void ranges(double lat, double lon, int i, int j) { HX_REQUIRE(lat >= -90 - 1e-9 && lat <= 90 + 1e-9, "latitude of node " << i << "," << j << " is " << lat); HX_REQUIRE(std::fabs(lon) < 1e4, "longitude of node " << i << "," << j << " is " << lon); }
void one_case(Rng& g) {
    if (g.b()) {
        int nj = g.i(2, 14), ni = g.i(2, 14); Buf<int> d(2); d[0] = nj; d[1] = ni; Buf<double> X(nj*ni), Y(nj*ni); for (auto& v : X) v = SENT; for (auto& v : Y) v = SENT; double* c[2] = {X.p, Y.p}; double a = g.b(4) ? g.i(-4, 4)*45. : g.u(-180, 180), b = g.b(4) ? g.i(-4, 4)*45. : g.u(-360, 360); if (g.b(5)) { a = b = 0; } if (g.b(6)) a = 0; if (g.b(6)) b = 0;
        HX_DESC("rotated " << nj << "x" << ni << " lat " << a << " lon " << b); hx::nontrivial(); createRotatedPoleGrid(d.p, a, b, c); double al = a*M_PI/180, be = b*M_PI/180; HX_REQUIRE(d[0] == nj && d[1] == ni && c[0] == X.p && c[1] == Y.p, "the arguments were modified");
        for (int j = 0; j < nj; ++j) for (int i = 0; i < ni; ++i) { int k = j*ni+i; ranges(X[k], Y[k], j, i); V3 p = sph(-90 + 180.*j/(nj-1), -180 + 360.*i/(ni-1)); V3 q = {cos(al)*p[0] + sin(al)*p[2], p[1], -sin(al)*p[0] + cos(al)*p[2]}; V3 r = {cos(be)*q[0] + sin(be)*q[1], -sin(be)*q[0] + cos(be)*q[1], q[2]}; double e = dist(r, sph(X[k], Y[k])); HX_REQUIRE(e < 1e-6, "node " << j << "," << i << " is at " << X[k] << "," << Y[k] << ", off by " << e); }
    } else {
        int nlat = g.i(3, 16), nlon = g.i(2, 16), cap = g.i(0, nlat-2); Buf<int> d(2); d[0] = nlat; d[1] = nlon; HX_DESC("tripolar " << nlat << "x" << nlon << " cap " << cap); hx::nontrivial(); SgTripolarGrid_type* o = 0; SgTripolarGrid_new(&o, d.p, cap); d[0] = d[1] = -5; double** c = 0;
        for (int rep = 0; rep < 2; ++rep) { Buf<int> e(2); SgTripolarGrid_getGrid(&o, e.p, &c);
            HX_REQUIRE(e[0] == nlon && e[1] == nlat, "dimensions " << e[0] << "," << e[1]); HX_REQUIRE(c && c[0] && c[1], "no coordinates"); double caplat = -90 + 180.*cap/(nlat-1);
            for (int j = 0; j < nlat; ++j) for (int i = 0; i < nlon; ++i) { int k = j*nlon+i; double lat = c[0][k], lon = c[1][k]; ranges(lat, lon, j, i); V3 p = sph(lat, lon);
                if (j <= cap) { double elat = -90 + 180.*j/(nlat-1), elon = -180 + 360.*i/(nlon-1); HX_REQUIRE(hx::close(lat, elat, 1e-6), "latitude of node " << j << "," << i << " is " << lat << " expected " << elat); HX_REQUIRE(dist(p, sph(elat, elon)) < 1e-6 && (j == cap || hx::close(lon, elon, 1e-9)), "longitude of node " << j << "," << i << " is " << lon << " expected " << elon); }
                else HX_REQUIRE(lat >= caplat - 1e-6, "cap node " << j << "," << i << " is south of the cap boundary: " << lat);
                if (j == nlat-1) { int m = j*nlon + nlon-1-i; HX_REQUIRE(dist(p, sph(c[0][m], c[1][m])) < 1e-5, "the last row does not fold onto itself at " << i); }
                if (j >= cap && (i == 0)) { int m = j*nlon + nlon-1; HX_REQUIRE(dist(p, sph(c[0][m], c[1][m])) < 1e-5, "row " << j << " is not closed"); } } }
        SgTripolarGrid_del(&o);
    }
}
