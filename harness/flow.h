#ifndef FLOW_H
#define FLOW_H
#include "interp.h"
#include "SgFlowInterp2D.h"
struct Line { std::vector<double> x, y; };
inline void setSrc(SgFlowInterp2D_type* o, const Grid& s) { Coords c(s); Buf<int> d(2); for (int i = 0; i < 2; ++i) d[i] = s.dims[i]; SgFlowInterp2D_setSrcGrid(&o, d.p, c.c); }
inline void setDst(SgFlowInterp2D_type* o, const Line& l) { Coords c(l.x, l.y); Buf<int> d(1); d[0] = (int) l.x.size(); SgFlowInterp2D_setDstGrid(&o, d.p, c.c); }
inline void applyF(SgFlowInterp2D_type* o, const std::vector<double>& e0, const std::vector<double>& e1, Buf<double>& out) { Buf<double> a(e0), b(e1); const double* p[2] = {a.p, b.p}; SgFlowInterp2D_apply(&o, p, out.p); HX_REQUIRE(a.vec() == e0 && b.vec() == e1, "apply modified the source"); }
// piecewise straight line through the (bilinear extension of the corners of the) grid; lo..hi = range of the parameters
inline Line randLine(Rng& g, const Grid& s, int nseg, double lo, double hi) {
    Line l; Pt o = s.at(0,0), a = s.at(s.dims[0]-1, 0), b = s.at(0, s.dims[1]-1), c = s.at(s.dims[0]-1, s.dims[1]-1);
    for (int i = 0; i <= nseg; ++i) { double u = g.u(lo, hi), v = g.u(lo, hi); double p[2]; for (int k = 0; k < 2; ++k) p[k] = (1-u)*(1-v)*o[k] + u*(1-v)*a[k] + (1-u)*v*b[k] + u*v*c[k]; l.x.push_back(p[0]); l.y.push_back(p[1]); }
    return l;
}
#endif
