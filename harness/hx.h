// Small harness library: seeded cases, per-case replay, progress file.
#ifndef HX_H
#define HX_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <array>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <limits>
#include <chrono>
#include <unordered_set>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t u64() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
                     z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    int i(int lo, int hi) { return lo + (int)(u64() % (uint64_t)(hi - lo + 1)); } // inclusive
    double u() { return (double)(u64() >> 11) / 9007199254740992.0; }
    double u(double lo, double hi) { return lo + (hi - lo) * u(); }
    bool b(int n = 2) { return u64() % n == 0; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + u64() % l.size()); }
};

// to be defined by each harness
void one_case(Rng& g);

namespace hx {
inline uint64_t& curCase() { static uint64_t c = 0; return c; }
inline int& progressFd() { static int fd = -1; return fd; }
inline int& outFd() { static int fd = 1; return fd; }
inline std::unordered_set<uint64_t>& distinct() { static std::unordered_set<uint64_t> s; return s; }
inline std::vector<std::string>& samples() { static std::vector<std::string> s; return s; }
inline std::ostringstream& desc() { static std::ostringstream s; return s; }
inline uint64_t& evals() { static uint64_t e = 0; return e; }
inline void emit(const std::string& s) { ssize_t r = write(outFd(), s.data(), s.size()); (void) r; }
inline std::string clean(std::string s) { for (auto& c : s) if (c == '\n' || c == '\r') c = ' '; return s; }
[[noreturn]] inline void fail(const std::string& msg) {
    std::ostringstream o;
    o << "FAILCASE " << curCase() << "\nMSG " << clean(msg) << "\nCASE " << clean(desc().str()) << "\n";
    emit(o.str());
    _exit(42);
}
// a case is non-trivial when the harness says so; h identifies it
inline void nontrivial(uint64_t h = 0) { distinct().insert(h ? h : curCase()); }
inline bool close(double a, double b, double atol, double rtol = 0) {
    return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b)); // false for nan
}
inline void onAlarm(int) {
    char buf[128]; int n = snprintf(buf, sizeof buf, "FAILCASE %llu\nMSG the call does not return\nCASE -\n",
                                    (unsigned long long) curCase());
    ssize_t r = write(outFd(), buf, n); (void) r; _exit(42);
}
template <class V> std::string str(const V& v) { std::ostringstream o; o.precision(17); o << "["; bool f = true;
    for (auto& x : v) { if (!f) o << ","; o << x; f = false; } o << "]"; return o.str(); }
inline std::string strp(const double* p, size_t n) { return str(std::vector<double>(p, p + n)); }
inline std::string strp(const int* p, size_t n) { return str(std::vector<int>(p, p + n)); }
}
#define HX_FAIL(x) do { std::ostringstream o_; o_.precision(17); o_ << x; hx::fail(o_.str()); } while (0)
#define HX_REQUIRE(c, x) do { if (!(c)) HX_FAIL(x); } while (0)
#define HX_DESC(x) do { hx::desc() << x << "; "; } while (0)

// exact-size heap copies, so that the address sanitizer sees overruns
template <class T> struct Buf {
    T* p; size_t n;
    explicit Buf(size_t n_) : p((T*) malloc(std::max<size_t>(1, n_ * sizeof(T)))), n(n_) {}
    Buf(const std::vector<T>& v) : Buf(v.size()) { std::copy(v.begin(), v.end(), p); }
    Buf(const Buf&) = delete; Buf& operator=(const Buf&) = delete;
    ~Buf() { free(p); }
    T& operator[](size_t i) { return p[i]; }
    const T& operator[](size_t i) const { return p[i]; }
    T* begin() const { return p; } T* end() const { return p + n; }
    size_t size() const { return n; }
    std::vector<T> vec() const { return std::vector<T>(p, p + n); }
};

int main(int argc, char** argv) {
    uint64_t seed = 1; double tmax = 5; long nmax = 1L << 60; const char* progress = 0; const char* out = 0;
    bool single = false; uint64_t cs = 0;
    for (int a = 1; a + 1 < argc; a += 2) {
        std::string k = argv[a];
        if (k == "--seed") seed = strtoull(argv[a + 1], 0, 10);
        else if (k == "--time") tmax = atof(argv[a + 1]);
        else if (k == "--max") nmax = atol(argv[a + 1]);
        else if (k == "--progress") progress = argv[a + 1];
        else if (k == "--out") out = argv[a + 1];
        else if (k == "--case") { single = true; cs = strtoull(argv[a + 1], 0, 10); }
    }
    if (out) hx::outFd() = open(out, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (progress) hx::progressFd() = open(progress, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    hx::desc().precision(17);
    signal(SIGALRM, hx::onAlarm);
    auto t0 = std::chrono::steady_clock::now();
    for (long k = 0; k < nmax; ++k) {
        if (!single) { Rng g(seed * 0x100000001B3ULL + (uint64_t) k); g.u64(); cs = g.u64() >> 1; if (!cs) cs = 1; }
        hx::curCase() = cs;
        if (hx::progressFd() >= 0) { ssize_t r = pwrite(hx::progressFd(), &cs, 8, 0); (void) r; }
        hx::desc().str("");
        alarm(60);
        Rng g(cs);
        one_case(g);
        alarm(0);
        hx::evals()++;
        if (hx::samples().size() < 3 && hx::desc().str().size()) hx::samples().push_back(hx::clean(hx::desc().str()).substr(0, 400));
        if (single) break;
        if ((k & 7) == 7 || hx::evals() < 8) {
            double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (dt > tmax) break;
        }
    }
    std::ostringstream o;
    o << "DONE " << hx::evals() << " " << hx::distinct().size() << "\n";
    for (auto& s : hx::samples()) o << "SAMPLE " << s << "\n";
    hx::emit(o.str());
    return 0;
}
#endif
