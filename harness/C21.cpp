#include "hx.h"
#include "SgLine.h"
#include "SgTriangle.h"
#include "SgTetrahedron.h"
typedef std::set<int> Si;
template <class O, class F> void points(O** o, F f, std::vector<Buf<double>*>& p, const std::vector<std::vector<double> >& v) { for (auto* b : p) for (auto& x : *b) x = 1e77; for (size_t r = 0; r < 2; ++r) for (size_t i = 0; i < v.size(); ++i) { double* q = 0; f(o, (int) i, &q); HX_REQUIRE(q, "no point " << i); for (int k = 0; k < 3; ++k) HX_REQUIRE(q[k] == v[i][k], "component " << k << " of point " << i << " is " << q[k] << " expected " << v[i][k]); } }
void one_case(Rng& g) {
    int np = g.i(2, 4); std::vector<std::vector<double> > v; std::vector<Buf<double>*> p; for (int i = 0; i < np; ++i) { std::vector<double> a; for (int k = 0; k < 3; ++k) a.push_back(g.b(3) ? g.i(-2, 2) : g.u(-100, 100)); v.push_back(a); p.push_back(new Buf<double>(a)); } HX_DESC(np << " points"); for (auto& a : v) hx::desc() << hx::str(a); hx::nontrivial(); int n = -1;
    if (np == 2) { SgLine_type* o = 0; SgLine_new(&o, p[0]->p, p[1]->p); points(&o, SgLine_getPoint, p, v); SgLine_getNumberOfPoints(&o, &n); HX_REQUIRE(n == 2, n << " points"); SgLine_del(&o); }
    else if (np == 3) { SgTriangle_type* o = 0; SgTriangle_new(&o, p[0]->p, p[1]->p, p[2]->p); points(&o, SgTriangle_getPoint, p, v); SgTriangle_getNumberOfPoints(&o, &n); HX_REQUIRE(n == 3, n << " points"); SgTriangle_getNumberOfEdges(&o, &n); HX_REQUIRE(n == 3, n << " edges");
        std::set<Si> s; int last = -1, first = -1; for (int i = 0; i < 3; ++i) { int* e = 0; SgTriangle_getEdge(&o, i, &e); HX_REQUIRE(e && e[0] >= 0 && e[0] < 3 && e[1] >= 0 && e[1] < 3 && e[0] != e[1], "edge " << i); HX_REQUIRE(s.insert(Si{e[0], e[1]}).second, "edge " << i << " is repeated"); if (i == 0) first = e[0]; else HX_REQUIRE(e[0] == last, "edge " << i << " does not start where the previous one ends"); last = e[1]; } HX_REQUIRE(last == first, "the edges do not go round"); SgTriangle_del(&o); }
    else { SgTetrahedron_type* o = 0; SgTetrahedron_new(&o, p[0]->p, p[1]->p, p[2]->p, p[3]->p); points(&o, SgTetrahedron_getPoint, p, v); SgTetrahedron_getNumberOfPoints(&o, &n); HX_REQUIRE(n == 4, n << " points"); SgTetrahedron_getNumberOfEdges(&o, &n); HX_REQUIRE(n == 6, n << " edges"); SgTetrahedron_getNumberOfFaces(&o, &n); HX_REQUIRE(n == 4, n << " faces");
        std::set<Si> s; for (int i = 0; i < 6; ++i) { int* e = 0; SgTetrahedron_getEdge(&o, i, &e); Si q; for (int k = 0; k < 2; ++k) { HX_REQUIRE(e && e[k] >= 0 && e[k] < 4, "edge " << i); q.insert(e[k]); } HX_REQUIRE(q.size() == 2 && s.insert(q).second, "edge " << i << " is degenerate or repeated"); } s.clear(); for (int i = 0; i < 4; ++i) { int* e = 0; SgTetrahedron_getFace(&o, i, &e); Si q; for (int k = 0; k < 3; ++k) { HX_REQUIRE(e && e[k] >= 0 && e[k] < 4, "face " << i); q.insert(e[k]); } HX_REQUIRE(q.size() == 3 && s.insert(q).second, "face " << i << " is degenerate or repeated"); } SgTetrahedron_del(&o); }
    for (auto* b : p) delete b;
}
