// Bounded differential harness: the library's real code against a plain
// reference in double, on generated inputs.  Used to replay the verifier's
// counterexamples and as a labelled bounded stand-in; it proves nothing.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <iomanip>
#include <iostream>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>
#include <unistd.h>
#ifdef _OPENMP
#include <omp.h>
#endif
#include "smart_dnn/Shape/Shape.hpp"
#include "smart_dnn/Shape/ShapeOperations.hpp"
#include "smart_dnn/Tensor/Tensor.hpp"
#include "smart_dnn/Tensor/BroadcastView.hpp"
#include "smart_dnn/Tensor/SliceView.hpp"
#include "smart_dnn/Tensor/AdvancedTensorOperations.hpp"
using namespace smart_dnn;
typedef std::vector<int> VI;
typedef std::vector<double> VD;
typedef Tensor<float> TF;
typedef AdvancedTensorOperations<float> Adv;

static char g_case[4096] = "(start)";
static int g_iter = 0; static const char* g_test = "";
static unsigned long long g_seed = 1; static long g_cases = 0;
static void report_death() {
    char b[4600]; int n = snprintf(b, sizeof b, "FAIL test=%s seed=%llu iter=%d: process died in: %s\n", g_test, g_seed, g_iter, g_case);
    ssize_t r = write(1, b, n); (void)r;
}
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_alarm(int) {
    char b[4600]; int n = snprintf(b, sizeof b, "FAIL test=%s seed=%llu iter=%d: does not return: %s\n", g_test, g_seed, g_iter, g_case);
    ssize_t r = write(1, b, n); (void)r; _exit(1);
}
static void on_abort(int) { report_death(); _exit(1); }

struct Rng {
    uint64_t s;
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int range(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }
    bool coin(int n = 2) { return next() % n == 0; }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double lo, double hi) { return lo + u() * (hi - lo); }
    template <class C> auto pick(const C& c) { return c[next() % c.size()]; }
};
static Rng R{1};
static VI g_pool;    // integer literals of the sources and of a counterexample
struct Fail { std::string what; };
template <class... A> std::string cat(const A&... a) { std::ostringstream o; o << std::setprecision(9); (o << ... << a); return o.str(); }
inline std::string str(const VI& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]); return r + "]"; }
inline std::string str(const std::vector<size_t>& v) { return str(VI(v.begin(), v.end())); }
template <class... A> void fail(const A&... a) { throw Fail{cat(a...)}; }
template <class... A> void CASE(const A&... a) { std::string s = cat(a...); snprintf(g_case, sizeof g_case, "%s", s.c_str()); ++g_cases; alarm(25); }

// ------------------------------------------------------------- reference tensors
struct ND {
    VI d; VD v;
    ND() {}
    explicit ND(VI dims, double x = 0) : d(std::move(dims)) { v.assign(size(), x); }
    ND(VI dims, VD val) : d(std::move(dims)), v(std::move(val)) {}
    size_t size() const { size_t n = 1; for (int x : d) n *= (size_t)x; return n; }
    size_t pos(const VI& q) const { size_t p = 0; for (size_t i = 0; i < d.size(); ++i) p = p * d[i] + q[i]; return p; }
    double& at(const VI& q) { return v[pos(q)]; }
    double at(const VI& q) const { return v[pos(q)]; }
    int rank() const { return (int)d.size(); }
};
inline bool next_index(VI& q, const VI& d) {
    for (int i = (int)d.size() - 1; i >= 0; --i) { if (++q[i] < d[i]) return true; q[i] = 0; }
    return false;
}
template <class F> void each(const VI& d, F f) { for (int x : d) if (x <= 0) return; VI q(d.size(), 0); do f(q); while (next_index(q, d)); }
inline VI dims_of(const Shape& s) { return s.getDimensions(); }
inline ND of(const TF& t) { ND r; r.d = dims_of(t.getShape()); const float* p = t.getData().data(); size_t n = t.getShape().size(); r.v.assign(p, p + n); return r; }
inline ND of(const TensorData<float, CPUDevice>& t) { ND r; r.d = dims_of(t.shape()); const float* p = t.data(); r.v.assign(p, p + t.shape().size()); return r; }
inline TF mk(const ND& a) { TF t{Shape(a.d)}; float* p = t.getData().data(); for (size_t i = 0; i < a.v.size(); ++i) p[i] = (float)a.v[i]; return t; }
inline std::string show(const ND& a) { std::string r = str(a.d) + "{"; for (size_t i = 0; i < a.v.size() && i < 24; ++i) r += cat(i ? "," : "", a.v[i]); if (a.v.size() > 24) r += ",..."; return r + "}"; }

// values that floats hold exactly
inline double val(int kind = -1) {
    if (kind < 0) kind = R.range(0, 3);
    switch (kind) {
        case 0: return R.range(-4, 4);
        case 1: return R.range(-64, 64) / 16.0;
        case 2: return (float)R.real(-3, 3);
        default: return R.coin(6) ? 0.0 : (float)R.real(-1, 1);
    }
}
inline ND rnd(const VI& d, int kind = -1) { ND a(d); if (kind < 0) kind = R.range(0, 3); for (double& x : a.v) x = val(kind); return a; }
inline ND rnd_nz(const VI& d) { ND a = rnd(d); for (double& x : a.v) if (std::fabs(x) < 0.05) x = x < 0 ? -0.5 : 0.75; return a; }
inline ND rnd_pos(const VI& d, double lo = 0.01, double hi = 4) { ND a(d); for (double& x : a.v) x = (float)R.real(lo, hi); return a; }
inline int dim(int hi = 5) {
    if (!g_pool.empty() && R.coin(12)) { int x = R.pick(g_pool) + R.range(-1, 1); if (x >= 1 && x <= 70) return x; }
    return R.coin(4) ? 1 : R.range(1, hi);
}
inline size_t total(const VI& d) { size_t n = 1; for (int x : d) n *= x; return n; }
inline int rk(int lo, int hi) { return R.coin(12) ? R.range(hi, 9) : R.range(lo, hi); }    // a rank, now and then a high one
inline VI dims(int rank, size_t cap = 4000, int hi = 5) {
    VI d(rank);
    for (int& x : d) x = dim(hi);
    // an occasional big dimension
    if (rank && !g_pool.empty() && R.coin(10)) { int x = R.pick(g_pool) + R.range(-1, 2); if (x >= 1) d[R.range(0, rank - 1)] = x; }
    while (total(d) > cap) { auto m = std::max_element(d.begin(), d.end()); *m = R.range(1, std::max(1, std::min(*m - 1, 5))); }
    return d;
}
inline void same_dims(const std::string& what, const VI& got, const VI& want) { if (got != want) fail(what, ": shape ", str(got), " instead of ", str(want)); }
inline void shape_ok(const std::string& what, const Shape& s) {
    const VI& d = s.getDimensions(); const auto& st = s.getStride();
    size_t n = 1; for (int x : d) n *= (size_t)x;
    if (s.rank() != d.size() || s.size() != n) fail(what, ": size ", s.size(), " rank ", s.rank(), " for dimensions ", str(d));
    if (st.size() != d.size()) fail(what, ": ", st.size(), " strides for ", str(d));
    size_t w = 1;
    for (int i = (int)d.size() - 1; i >= 0; --i) { if (st[i] != w) fail(what, ": strides ", str(st), " for ", str(d)); w *= (size_t)d[i]; }
}
inline bool close(double g, double w, double tol, double scale = 1) {
    if (std::isnan(g) || std::isnan(w)) return std::isnan(g) && std::isnan(w);
    if (std::isinf(g) || std::isinf(w)) return g == w || (std::isinf(g) && std::fabs(w) > 3e38) ;
    return std::fabs(g - w) <= tol * (scale + std::fabs(w));
}
inline void same(const std::string& what, const ND& got, const ND& want, double tol = 1e-4, double scale = 1) {
    same_dims(what, got.d, want.d);
    if (got.v.size() != want.v.size()) fail(what, ": ", got.v.size(), " elements instead of ", want.v.size());
    for (size_t i = 0; i < want.v.size(); ++i) if (!close(got.v[i], want.v[i], tol, scale)) {
        VI q(want.d.size()); size_t p = i; for (int k = (int)q.size() - 1; k >= 0; --k) { q[k] = p % want.d[k]; p /= want.d[k]; }
        fail(what, ": element ", str(q), " of shape ", str(want.d), " is ", got.v[i], " instead of ", want.v[i]);
    }
}
inline void same(const std::string& what, const TF& got, const ND& want, double tol = 1e-4, double scale = 1) { shape_ok(what, got.getShape()); same(what, of(got), want, tol, scale); }
inline void exact(const std::string& what, const TF& got, const ND& want) {
    shape_ok(what, got.getShape()); ND g = of(got); same_dims(what, g.d, want.d);
    for (size_t i = 0; i < want.v.size(); ++i) if (!((float)want.v[i] == (float)g.v[i] || (std::isnan(want.v[i]) && std::isnan(g.v[i])))) fail(what, ": element ", i, " is ", g.v[i], " instead of ", want.v[i]);
}
template <class F> void throws(const std::string& what, F f) {
    bool t = false;
    try { f(); } catch (const Fail&) { throw; } catch (const std::exception&) { t = true; }
    if (!t) fail(what, ": no exception");
}
// ------------------------------------------------------------- broadcasting
inline bool bcast(const VI& a, const VI& b, VI& out) {
    size_t n = std::max(a.size(), b.size()); out.assign(n, 1);
    for (size_t i = 0; i < n; ++i) {
        int x = i < a.size() ? a[a.size() - 1 - i] : 1, y = i < b.size() ? b[b.size() - 1 - i] : 1;
        if (x != y && x != 1 && y != 1) return false;
        out[n - 1 - i] = std::max(x, y);
    }
    return true;
}
inline VI bidx(const VI& q, const VI& d) { VI r(d.size()); size_t k = q.size() - d.size(); for (size_t i = 0; i < d.size(); ++i) r[i] = d[i] == 1 ? 0 : q[k + i]; return r; }
inline void pair_dims(VI& a, VI& b, size_t cap = 3000) {
    int ra = R.range(1, R.coin(5) ? 6 : 4), rb = R.coin(3) ? ra : R.range(1, R.coin(5) ? 6 : 4);
    bool gap = R.coin(6); if (gap) { ra = R.range(1, 4); rb = ra + R.range(1, 3); if (R.coin(3)) std::swap(ra, rb); }
    int n = std::max(ra, rb);
    VI o = dims(n, cap, gap ? 3 : 4);
    a.assign(o.end() - ra, o.end()); b.assign(o.end() - rb, o.end());
    int m = R.range(0, 3);
    for (int& x : a) if ((m & 1) && R.coin(3)) x = 1;
    for (int& x : b) if ((m & 2) && R.coin(3)) x = 1;
}
// ------------------------------------------------------------- driver
struct Test { const char* name; void (*fn)(); int n; };
std::vector<Test>& tests();
inline std::vector<Test>& tests() { static std::vector<Test> t; return t; }
struct Reg { Reg(const char* n, void (*f)(), int k) { tests().push_back({n, f, k}); } };
#define TEST(name, n) static void name(); static Reg reg_##name(#name, name, n); static void name()
int main(int argc, char** argv) {
    double mult = 1; std::string only; int iter = -1; double limit = 60;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") g_seed = strtoull(v.c_str(), 0, 10);
        else if (k == "--mult") mult = atof(v.c_str());
        else if (k == "--only") only = v;
        else if (k == "--iter") iter = atoi(v.c_str());
        else if (k == "--limit") limit = atof(v.c_str());
        else if (k == "--pool") { std::stringstream s(v); std::string x; while (std::getline(s, x, ',')) if (!x.empty()) g_pool.push_back(atoi(x.c_str())); }
    }
    signal(SIGALRM, on_alarm); signal(SIGABRT, on_abort); signal(SIGFPE, on_abort);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(report_death);
    long ran = 0; int bad = 0;
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (auto& t : tests()) {
        if (!only.empty() && only != t.name) continue;
        g_test = t.name;
        int n = std::max(1, (int)(t.n * mult));
        for (int i = 0; i < n; ++i) {
            if (iter >= 0 && i != iter) continue;
            struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
            if (t1.tv_sec - t0.tv_sec > limit) { printf("LIMIT %s at %d of %d\n", t.name, i, n); break; }
            g_iter = i; ++ran;
            R.s = g_seed * 1000003ull + (uint64_t)i * 7919u;
            for (const char* p = t.name; *p; ++p) R.s = R.s * 131 + *p;
            strcpy(g_case, "(start)");
            alarm(25);
            std::string msg;
            try { t.fn(); continue; }
            catch (const Fail& f) { msg = f.what; }
            catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); }
            catch (...) { msg = "unexpected exception"; }
            printf("FAIL test=%s seed=%llu iter=%d: %s: %s\n", t.name, g_seed, i, g_case, msg.c_str());
            fflush(stdout); ++bad; break;
        }
    }
    alarm(0);
    printf("DONE iterations=%ld cases=%ld failures=%d\n", ran, g_cases, bad);
    return bad ? 1 : 0;
}
