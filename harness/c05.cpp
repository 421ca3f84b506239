#include "common.hpp"
static std::vector<size_t> axes_of(int r) { std::vector<size_t> ax; do { ax.clear(); for (int i = 0; i < r; ++i) if (R.coin()) ax.push_back(i); } while (ax.empty()); if (R.coin()) for (size_t i = ax.size(); i > 1; --i) std::swap(ax[i - 1], ax[R.range(0, i - 1)]); return ax; }
static bool in(const std::vector<size_t>& ax, size_t i) { return std::find(ax.begin(), ax.end(), i) != ax.end(); }
static ND rsum(const ND& x, const std::vector<size_t>& ax, bool keep) {
    VI o; for (size_t i = 0; i < x.d.size(); ++i) if (!in(ax, i)) o.push_back(x.d[i]); else if (keep) o.push_back(1);
    if (o.empty()) o = {1};
    ND r(o); each(x.d, [&](const VI& q) { VI p; for (size_t i = 0; i < q.size(); ++i) if (!in(ax, i)) p.push_back(q[i]); else if (keep) p.push_back(0); if (p.empty()) p = {0}; r.at(p) += x.at(q); }); return r;
}
TEST(sum, 600) {
    VI d = dims(rk(1, 6), 4000); ND x = rnd(d); TF t = mk(x); auto ax = axes_of(d.size()); CASE("sum of ", str(d), " over ", str(ax));
    ND w = rsum(x, ax, false); same("sum", Adv::sum(t, ax), w, 1e-3); exact("operand", t, x);
    size_t a = R.range(0, (int)d.size() - 1); CASE("sum of ", str(d), " over axis ", a); w = rsum(x, {a}, false); same("sum axis", Adv::sum(t, a), w, 1e-3);
    ND td = of(TensorOperations<float, CPUDevice>::sum(t.getData(), (int)a)); same("TensorOperations::sum axis", td, w, 1e-3);
    std::vector<size_t> all; for (size_t i = 0; i < d.size(); ++i) all.push_back(i); w = rsum(x, all, false);
    CASE("sum of ", str(d)); same("sum all", Adv::sum(t), w, 1e-3); same("TensorOperations::sum", of(TensorOperations<float, CPUDevice>::sum(t.getData())), w, 1e-3); exact("operand", t, x);
}
TEST(mean, 600) {
    VI d = dims(rk(1, 6), 4000); ND x = rnd(d); TF t = mk(x); auto ax = axes_of(d.size()); CASE("mean of ", str(d), " over ", str(ax));
    ND w = rsum(x, ax, true); double n = 1; for (size_t a : ax) n *= d[a]; for (double& v : w.v) v /= n; if (ax.size() == d.size()) w.d = {1};
    TF m = Adv::mean(t, ax); same("mean", m, w, 1e-4); exact("operand", t, x);
    ND mu = R.coin() ? w : rnd(w.d); TF tm = mk(mu); ND v(w.d);
    each(d, [&](const VI& q) { VI p = q; for (size_t a : ax) p[a] = 0; if (ax.size() == d.size()) p = {0}; double e = x.at(q) - mu.at(p); v.at(p) += e * e / n; });
    CASE("variance of ", str(d), " over ", str(ax)); same("variance", Adv::variance(t, tm, ax), v, 1e-3); exact("operand", t, x); exact("mean operand", tm, mu);
    double s = 0; for (double e : x.v) s += e; s /= x.v.size(); ND al(VI{1}); al.v[0] = s; CASE("mean of ", str(d)); same("mean all", Adv::mean(t), al, 1e-3);
    double vv = 0; for (double e : x.v) vv += (e - s) * (e - s); al.v[0] = vv / x.v.size(); TF ms = Adv::mean(t); CASE("variance of ", str(d)); same("variance all", Adv::variance(t, ms), al, 1e-3);
}
TEST(reject, 300) {
    VI d = dims(rk(1, 5)); ND x = rnd(d); TF t = mk(x); int r = d.size(); auto ax = axes_of(r); ax[R.range(0, (int)ax.size() - 1)] = r + R.range(0, 2); CASE("axes ", str(ax), " of ", str(d));
    throws("sum", [&] { Adv::sum(t, ax); }); throws("mean", [&] { Adv::mean(t, ax); }); size_t a = r + R.range(0, 2); CASE("axis ", a, " of ", str(d)); throws("sum axis", [&] { Adv::sum(t, a); }); throws("TensorOperations::sum", [&] { TensorOperations<float, CPUDevice>::sum(t.getData(), (int)a); });
    throws("TensorOperations::sum", [&] { TensorOperations<float, CPUDevice>::sum(t.getData(), -R.range(1, 3)); });
    TF m = Adv::mean(t); throws("variance", [&] { Adv::variance(t, m, ax); }); exact("operand", t, x);
}
