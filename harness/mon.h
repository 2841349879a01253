// Monitor runtime shared by all harnesses: case generation, monitors, observation counters, watchdog.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

namespace mon {

inline uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
inline uint64_t hstr(std::string const & s) { uint64_t h = 1469598103934665603ull; for(unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

struct Rng {
    uint64_t s;
    int nudge = 0; // when n > 0, the n-th next number comes out slightly different
    explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    double u() { double v = ((next() >> 11) + 0.5) * (1.0 / 9007199254740992.0); if(nudge > 0 && --nudge == 0) v += v < 0.5 ? 1e-4 : -1e-4; return v; }
    double u(double a, double b) { return a + (b - a) * u(); }
    double lu(double a, double b) { return a * std::exp(u() * std::log(b / a)); }
    uint64_t i(uint64_t n) { return n ? next() % n : 0; }
    int ri(int a, int b) { return a + (int)i((uint64_t)(b - a + 1)); }
    bool coin(double p = 0.5) { return u() < p; }
    double normal() { return std::sqrt(-2 * std::log(u())) * std::cos(2 * M_PI * u()); }
    double sgn() { return coin() ? 1.0 : -1.0; }
    template<class T> T const & pick(std::vector<T> const & v) { return v[i(v.size())]; }
    template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + i(v.size())); }
    // a unit vector
    void dir(double & x, double & y, double & z) {
        if(coin(0.15)) { x = y = z = 0; double s = sgn(); int k = i(3); (k == 0 ? x : k == 1 ? y : z) = s; return; }
        double c = u(-1, 1), p = u(0, 2 * M_PI), q = std::sqrt(1 - c * c); x = q * std::cos(p); y = q * std::sin(p); z = c;
    }
};

struct Violation { std::string group, monitor, detail; long cas; };

struct State {
    std::map<std::string, uint64_t> evals;            // monitor -> evaluations
    std::map<std::string, uint64_t> fails;
    std::vector<Violation> violations;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> observed;         // free observation counters
    std::map<std::string, double> extreme;            // largest value seen per monitor quantity
};
inline State & st() { static State s; return s; }

struct Ctx {
    std::string group; long cas; Rng r; bool thorough; uint64_t seed;
};
inline Ctx *& cur() { static Ctx * c = nullptr; return c; }

inline std::string vfmt(char const * f, va_list ap) { char b[4096]; vsnprintf(b, sizeof b, f, ap); return b; }
inline std::string fmt(char const * f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }

inline void fail(std::string const & monitor, char const * f, ...) {
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    if(st().fails[monitor]++ < 6) st().violations.push_back({cur()->group, monitor, s, cur()->cas});
}
inline bool count(std::string const & monitor, bool ok) { ++st().evals[monitor]; return ok; }
// CHECK(monitor, condition, fmt, ...)
#define CHECK(M, C, ...) do { if(!mon::count((M), static_cast<bool>(C))) mon::fail((M), __VA_ARGS__); } while(0)
inline void obs(std::string const & k, uint64_t n = 1) { st().observed[k] += n; }
inline void peak(std::string const & k, double v) { auto it = st().extreme.find(k); if(it == st().extreme.end()) st().extreme[k] = v; else if(v > it->second) it->second = v; }
// a distinct non-trivial situation the monitors looked at
inline void seen(std::string const & k) {
    if(st().distinct.size() < 60000) st().distinct.insert(hstr(cur()->group + "|" + k));
    if(st().samples.size() < 4) st().samples.push_back(cur()->group + "|" + k);
}
inline void seen(char const * f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); seen(s); }

inline bool close(double a, double b, double rel, double abs = 0) {
    if(std::isnan(a) || std::isnan(b)) return false;
    if(a == b) return true;
    if(std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
inline bool finite(double a) { return std::isfinite(a); }

typedef std::function<void(Ctx &)> Fn;
struct Group { std::string prop, name; long nq, nt; Fn fn; bool nomem; };
inline std::vector<Group> & groups() { static std::vector<Group> g; return g; }
struct Reg { Reg(char const * p, char const * n, long nq, long nt, Fn f, bool nomem = false) { groups().push_back({p, n, nq, nt, f, nomem}); } };
// GROUP(property, name, quick cases, thorough cases) { body using Ctx & c }
#define GROUP(P, N, Q, T) static void grp_##P##_##N(mon::Ctx & c); static mon::Reg reg_##P##_##N(#P, #N, Q, T, grp_##P##_##N); static void grp_##P##_##N(mon::Ctx & c)

// ---- statistics -------------------------------------------------------------------------------------------
// asymptotic Kolmogorov tail probability
inline double ks_p(double d, double n) {
    double x = d * (std::sqrt(n) + 0.12 + 0.11 / std::sqrt(n));
    if(x < 0.2) return 1;
    double s = 0; for(int k = 1; k < 200; ++k) { double t = 2 * ((k & 1) ? 1 : -1) * std::exp(-2.0 * k * k * x * x); s += t; if(std::fabs(t) < 1e-300) break; }
    return std::min(1.0, std::max(0.0, s));
}
// KS test of samples against a cdf given as function
template<class F> inline double ks(std::vector<double> v, F cdf) {
    for(double x : v) if(std::isnan(x)) return 1; std::sort(v.begin(), v.end()); double n = v.size(), d = 0;
    for(size_t i = 0; i < v.size();) { size_t j = i; while(j < v.size() && v[j] == v[i]) ++j; double F0 = cdf(v[i]);
        d = std::max(d, std::max(std::fabs(F0 - i / n), std::fabs(j / n - F0))); i = j; }
    return d;
}
inline double ks2(std::vector<double> a, std::vector<double> b) {
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); double d = 0; size_t i = 0, j = 0;
    while(i < a.size() && j < b.size()) { double x = std::min(a[i], b[j]); while(i < a.size() && a[i] <= x) ++i; while(j < b.size() && b[j] <= x) ++j;
        d = std::max(d, std::fabs(double(i) / a.size() - double(j) / b.size())); }
    return d;
}
// composite Simpson / Gauss-Legendre 16 panels
template<class F> inline double integ(F f, double a, double b, int panels = 64) {
    static const double x[8] = {0.0950125098376374, 0.2816035507792589, 0.4580167776572274, 0.6178762444026438, 0.7554044083550030, 0.8656312023878318, 0.9445750230732326, 0.9894009349916499};
    static const double w[8] = {0.1894506104550685, 0.1826034150449236, 0.1691565193950025, 0.1495959888165767, 0.1246289712555339, 0.0951585116824928, 0.0622535239386479, 0.0271524594117541};
    double s = 0, h = (b - a) / panels;
    for(int p = 0; p < panels; ++p) { double m = a + (p + 0.5) * h; for(int k = 0; k < 8; ++k) s += w[k] * (f(m + 0.5 * h * x[k]) + f(m - 0.5 * h * x[k])); }
    return s * h * 0.5;
}

inline std::string jesc(std::string const & s) { std::string o; for(unsigned char ch : s) { if(ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if(ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; } else o += ch; } return o; }

inline volatile long *& pos() { static volatile long * p = nullptr; return p; }
inline void on_hang(int) { static char const m[] = "\nMON-HANG: case exceeded its CPU budget\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(97); }
inline void arm(double sec) { itimerval t{}; t.it_value.tv_sec = (long)sec; t.it_value.tv_usec = (long)((sec - (long)sec) * 1e6); setitimer(ITIMER_PROF, &t, nullptr); }
inline double & case_budget() { static double b = 60; return b; } // CPU seconds of one case

inline int run_main(int argc, char ** argv) {
    std::string group, out; long from = 0, to = -1; uint64_t seed = 1; bool list = false, thorough = false;
    for(int i = 1; i < argc; ++i) { std::string a = argv[i];
        if(a == "--list") list = true; else if(a == "--group") group = argv[++i]; else if(a == "--from") from = atol(argv[++i]); else if(a == "--to") to = atol(argv[++i]);
        else if(a == "--seed") seed = strtoull(argv[++i], 0, 10); else if(a == "--out") out = argv[++i]; else if(a == "--thorough") thorough = true; }
    if(list) { for(auto const & g : groups()) printf("%s %s %ld %ld\n", g.prop.c_str(), g.name.c_str(), g.nq, g.nt); return 0; }
    signal(SIGPROF, on_hang);
    if(!out.empty()) { std::string p = out + ".pos"; int fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644); if(fd >= 0 && ftruncate(fd, 64) == 0) pos() = (volatile long *)mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); }
    Group * gp = nullptr; for(auto & g : groups()) if(g.prop + "_" + g.name == group || g.name == group) gp = &g;
    if(!gp) { fprintf(stderr, "no such group %s\n", group.c_str()); return 3; }
    if(to < 0) to = thorough ? gp->nt : gp->nq;
    long done = 0;
    for(long k = from; k < to; ++k) {
        if(pos()) { pos()[0] = k; pos()[1] = 1; }
        Ctx c{gp->name, k, Rng(mix(seed * 1000003ull + hstr(gp->name)) ^ mix((uint64_t)k * 7919 + 13)), thorough, seed};
        cur() = &c; arm(case_budget());
        try { gp->fn(c); }
        catch(std::exception const & e) { fail("unexpected-exception", "%s", e.what()); }
        catch(...) { fail("unexpected-exception", "non-standard exception"); }
        arm(0); ++done;
    }
    if(pos()) pos()[1] = 2;
    FILE * f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if(!f) return 3;
    fprintf(f, "{\"group\":\"%s\",\"cases\":%ld,\"evals\":{", group.c_str(), done);
    bool first = true; for(auto & e : st().evals) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(e.first).c_str(), (unsigned long long)e.second); first = false; }
    fprintf(f, "},\"observed\":{"); first = true; for(auto & e : st().observed) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(e.first).c_str(), (unsigned long long)e.second); first = false; }
    fprintf(f, "},\"extreme\":{"); first = true; for(auto & e : st().extreme) if(std::isfinite(e.second)) { fprintf(f, "%s\"%s\":%.6g", first ? "" : ",", jesc(e.first).c_str(), e.second); first = false; }
    fprintf(f, "},\"samples\":["); first = true; for(auto & s : st().samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
    fprintf(f, "],\"distinct\":["); first = true; for(auto h : st().distinct) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)h); first = false; }
    fprintf(f, "],\"fails\":{"); first = true; for(auto & e : st().fails) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(e.first).c_str(), (unsigned long long)e.second); first = false; }
    fprintf(f, "},\"violations\":["); first = true;
    for(auto & v : st().violations) { fprintf(f, "%s\n{\"group\":\"%s\",\"monitor\":\"%s\",\"case\":%ld,\"detail\":\"%s\"}", first ? "" : ",", jesc(v.group).c_str(), jesc(v.monitor).c_str(), v.cas, jesc(v.detail).c_str()); first = false; }
    fprintf(f, "]}\n"); if(f != stdout) fclose(f);
    return 0;
}
} // namespace mon
using mon::Ctx; using mon::seen; using mon::obs;
#define MON_MAIN int main(int argc, char ** argv) { return mon::run_main(argc, argv); }
