#include "hx.h"
#include "CmdLineArgParser.h"
// explicit specialisations live in CmdLineArgParser.cpp
template <> double CmdLineArgParser::get<double>(const std::string&) const; template <> int CmdLineArgParser::get<int>(const std::string&) const; template <> std::string CmdLineArgParser::get<std::string>(const std::string&) const; template <> const char* CmdLineArgParser::get<const char*>(const std::string&) const; template <> bool CmdLineArgParser::get<bool>(const std::string&) const; template <> std::vector<double> CmdLineArgParser::get<std::vector<double> >(const std::string&) const; template <> std::vector<int> CmdLineArgParser::get<std::vector<int> >(const std::string&) const;
static std::string name(Rng& g) { static const char* n[] = {"-a", "-b", "-c", "-n", "--alpha", "--n", "--num", "-x", "--list", "-", "--", "-ab", "-1", "a"}; return n[g.i(0, 13)]; }
static std::string number(Rng& g) { std::ostringstream o; switch (g.i(0, 3)) { case 0: o << g.i(-1000, 1000); break; case 1: o.precision(12); o << g.u(-10, 10); break; case 2: o << g.i(-9, 9) << "e" << g.i(-5, 5); break; default: o << (g.b() ? "-" : "") << g.i(0, 9) << "." << g.i(0, 99); } return o.str(); }
static std::string value(Rng& g) { switch (g.i(0, 5)) { case 0: case 1: return number(g); case 2: return g.pick<std::string>({"hello", "", "x y", "1,2", "abc,", ",", "3x"}); default: { int n = g.i(1, 5); std::string s; for (int i = 0; i < n; ++i) { if (i) s += g.b(3) ? ", " : ","; if (!g.b(8)) s += number(g); } if (g.b(10)) s += ","; return s; } } }
static std::vector<std::string> split(const std::string& s) { std::vector<std::string> r(1); for (char c : s) if (c == ',') r.push_back(""); else r.back() += c; return r; }
void one_case(Rng& g) {
    CmdLineArgParser p; std::map<std::string, double> D; std::map<std::string, int> I; std::map<std::string, std::string> S; std::map<std::string, bool> B; B["-h"] = B["--help"] = false;
    int nd = g.i(0, 6); for (int k = 0; k < nd; ++k) { std::string n = name(g); switch (g.i(0, 4)) { case 0: D[n] = g.u(-5, 5); p.set(n, D[n], "h"); break; case 1: I[n] = g.i(-50, 50); p.set(n, I[n], "h"); break; case 2: S[n] = value(g); p.set(n, S[n], "h"); break; case 3: S[n] = value(g); p.set(n, S[n].c_str(), "h"); break; default: B[n] = g.b(); p.set(n, (bool) B[n], "h"); } }
    for (int rep = 0, reps = g.i(1, 2); rep < reps; ++rep) {
        std::vector<std::string> a(1, "prog"); int na = g.i(0, 8); for (int k = 0; k < na; ++k) { std::vector<std::string> known; for (auto& e : D) known.push_back(e.first); for (auto& e : I) known.push_back(e.first); for (auto& e : S) known.push_back(e.first); for (auto& e : B) known.push_back(e.first); a.push_back(g.b() ? known[g.i(0, (int) known.size()-1)] : g.b(10) ? name(g) : value(g)); }
        HX_DESC("args"); for (auto& s : a) hx::desc() << " '" << s << "'"; if (a.size() > 2) hx::nontrivial();
        std::vector<Buf<char>*> st; std::vector<char*> av; for (auto& s : a) { Buf<char>* b = new Buf<char>(s.size()+1); memcpy(b->p, s.c_str(), s.size()+1); st.push_back(b); av.push_back(b->p); } Buf<char*> AV(av);
        bool ex = true; for (size_t k = 1; k < a.size(); ++k) if (a[k].size() >= 2 && a[k][0] == '-' && !(a[k][1] >= '0' && a[k][1] <= '9') && !D.count(a[k]) && !I.count(a[k]) && !S.count(a[k]) && !B.count(a[k])) ex = false;
        bool ok = p.parse((int) a.size(), AV.p); HX_REQUIRE(ok == ex, "parse returned " << ok); for (auto* b : st) delete b;
        if (ok) { for (size_t k = 1; k < a.size(); ++k) { if (k+1 < a.size()) { if (D.count(a[k])) D[a[k]] = atof(a[k+1].c_str()); if (I.count(a[k])) I[a[k]] = (int) strtol(a[k+1].c_str(), 0, 10); if (S.count(a[k])) S[a[k]] = a[k+1]; } if (B.count(a[k])) B[a[k]] = !B[a[k]]; } }
        static const char* all[] = {"-a", "-b", "-c", "-n", "--alpha", "--n", "--num", "-x", "--list", "-", "--", "-ab", "-1", "a", "-h", "--help", "nothing", ""};
        for (const char* n : all) {
            HX_REQUIRE(p.get<double>(n) == (D.count(n) ? D[n] : -std::numeric_limits<double>::max()), "double " << n << " is " << p.get<double>(n)); HX_REQUIRE(p.get<int>(n) == (I.count(n) ? I[n] : -std::numeric_limits<int>::max()), "int " << n << " is " << p.get<int>(n)); HX_REQUIRE(p.get<bool>(n) == (B.count(n) ? B[n] : false), "bool " << n << " is " << p.get<bool>(n));
            std::string s = S.count(n) ? S[n] : ""; HX_REQUIRE(p.get<std::string>(n) == s, "string " << n << " is " << p.get<std::string>(n)); HX_REQUIRE(s == p.get<const char*>(n), "C string " << n);
            std::vector<double> vd; std::vector<int> vi; if (s.size()) for (auto& f : split(s)) { vd.push_back(atof(f.c_str())); vi.push_back((int) strtol(f.c_str(), 0, 10)); }
            HX_REQUIRE(p.get<std::vector<double> >(n) == vd, "list of doubles " << n << " is " << hx::str(p.get<std::vector<double> >(n)) << " expected " << hx::str(vd)); HX_REQUIRE(p.get<std::vector<int> >(n) == vi, "list of ints " << n << " is " << hx::str(p.get<std::vector<int> >(n)) << " expected " << hx::str(vi)); } }
}
