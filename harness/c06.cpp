#include "common.hpp"
static ND mm(const ND& a, const ND& b) { ND r(VI{a.d[0], b.d[1]}); for (int i = 0; i < a.d[0]; ++i) for (int j = 0; j < b.d[1]; ++j) for (int k = 0; k < a.d[1]; ++k) r.at({i, j}) += a.at({i, k}) * b.at({k, j}); return r; }
static void run(const char* what, const VI& a, const VI& b, std::function<ND(const ND&, const ND&)> f) {
    ND x = rnd(a), y = rnd(b); TF t = mk(x), u = mk(y); CASE("matmul ", what, " ", str(a), " by ", str(b)); same("matmul", Adv::matmul(t, u), f(x, y), 1e-4, 3); exact("left", t, x); exact("right", u, y);
}
static int D() { return dim(7); }
static ND re(ND x, VI d) { x.d = d; return x; }
static ND sl(const ND& x, int b) { VI d(x.d.begin() + 1, x.d.end()); ND r(d); size_t n = r.size(); for (size_t i = 0; i < n; ++i) r.v[i] = x.v[b * n + i]; return r; }
static ND cat3(const std::vector<ND>& v) { VI d = v[0].d; d.insert(d.begin(), v.size()); ND r(d); size_t n = v[0].size(); for (size_t b = 0; b < v.size(); ++b) for (size_t i = 0; i < n; ++i) r.v[b * n + i] = v[b].v[i]; return r; }
TEST(pairs, 500) {
    int m = D(), k = D(), n = D(), b = R.range(1, 4), c = R.range(1, 3);
    run("vector.vector", {k}, {k}, [&](const ND& x, const ND& y) { return re(mm(re(x, {1, k}), re(y, {k, 1})), {1}); });
    run("matrix.vector", {m, k}, {k}, [&](const ND& x, const ND& y) { return re(mm(x, re(y, {k, 1})), {m}); });
    run("vector.matrix", {k}, {k, n}, [&](const ND& x, const ND& y) { return re(mm(re(x, {1, k}), y), {n}); });
    run("matrix.matrix", {m, k}, {k, n}, mm);
    run("3.2", {b, m, k}, {k, n}, [&](const ND& x, const ND& y) { std::vector<ND> v; for (int i = 0; i < b; ++i) v.push_back(mm(sl(x, i), y)); return cat3(v); });
    run("3.3", {b, m, k}, {b, k, n}, [&](const ND& x, const ND& y) { std::vector<ND> v; for (int i = 0; i < b; ++i) v.push_back(mm(sl(x, i), sl(y, i))); return cat3(v); });
    run("4.4", {b, c, m, k}, {b, c, k, n}, [&](const ND& x, const ND& y) { std::vector<ND> v; for (int i = 0; i < b; ++i) { std::vector<ND> w; for (int j = 0; j < c; ++j) w.push_back(mm(sl(sl(x, i), j), sl(sl(y, i), j))); v.push_back(cat3(w)); } return cat3(v); });
    { int r = R.range(3, 5), B = 1; VI bd; for (int i = 0; i < r - 1; ++i) { bd.push_back(R.range(1, 3)); B *= bd.back(); } VI da = bd, db = bd, dr = bd; int p = R.range(1, 4), q = R.range(1, 4), s = R.range(1, 4); da.push_back(p); da.push_back(q); db.push_back(q); db.push_back(s); dr.push_back(p); dr.push_back(s);
      run("batched", da, db, [&](const ND& x, const ND& y) { std::vector<ND> v; ND X = re(x, {B, p, q}), Y = re(y, {B, q, s}); for (int i = 0; i < B; ++i) v.push_back(mm(sl(X, i), sl(Y, i))); return re(cat3(v), dr); }); }
    // out x in by batch x in x seq
    run("2.3", {m, k}, {b, k, n}, [&](const ND& x, const ND& y) { std::vector<ND> v; for (int i = 0; i < b; ++i) v.push_back(mm(x, sl(y, i))); return cat3(v); });
}
TEST(reject, 300) {
    int m = D(), k = D(), n = D(), b = R.range(1, 4), e = R.range(1, 3); int k2 = R.coin() && k > e ? k - e : k + e;
    auto no = [&](const VI& a, const VI& c) { ND x = rnd(a), y = rnd(c); TF t = mk(x), u = mk(y); CASE("matmul ", str(a), " by ", str(c)); throws("matmul", [&] { Adv::matmul(t, u); }); exact("left", t, x); exact("right", u, y); };
    no({k}, {k2}); no({m, k}, {k2}); no({k}, {k2, n}); no({m, k}, {k2, n}); no({b, m, k}, {k2, n}); no({b, m, k}, {b, k2, n}); no({m, k}, {b, k2, n});
    no({b, m, k}, {b + e, k, n}); no({b, b + 1, m, k}, {b, b + 2, k, n}); no({b, 2, m, k}, {b, 2, k2, n}); no({b, 2, m, k}, {b + 1, 2, k, n});
}
