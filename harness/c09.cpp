#include "layers.hpp"
static double f(int k, double x, double al) {
    switch (k) { case 0: return x > 0 ? x : 0; case 1: return x > 0 ? x : al * x; case 2: return 1 / (1 + std::exp(-x)); case 3: return std::tanh(x); case 4: return x / (1 + std::exp(-x)); default: return x * std::tanh(std::log1p(std::exp(x))); }
}
static std::unique_ptr<Activation<float>> act(int k, float al, bool dflt) {
    switch (k) { case 0: return std::make_unique<ReLU<float>>(); case 1: if (dflt) return std::make_unique<LeakyReLU<float>>(); return std::make_unique<LeakyReLU<float>>(al); case 2: return std::make_unique<Sigmoid<float>>(); case 3: return std::make_unique<Tanh<float>>(); case 4: return std::make_unique<Swish<float>>(); default: return std::make_unique<Mish<float>>(); }
}
static const char* nm[] = {"ReLU", "LeakyReLU", "Sigmoid", "Tanh", "Swish", "Mish"};
static ND rx(const VI& d, double big) { ND x = rnd(d); for (double& v : x.v) if (R.coin(5)) v = (float)R.real(-big, big); return x; }
TEST(elementwise, 1200) {
    int k = R.range(0, 5); bool df = R.coin(); float al = df ? 0.01f : (float)R.real(R.coin(4) ? -2 : 0.001, R.coin(3) ? 3 : 0.9); auto a = act(k, al, df); VI d; for (int n = R.range(1, 3), c = 0; c < n; ++c) { if (!c || R.coin()) d = dims(rk(1, 5), 3000); ND x = rx(d, 12), w(d); CASE(nm[k], ", call ", c, " on ", str(d));
    for (size_t i = 0; i < x.v.size(); ++i) w.v[i] = f(k, x.v[i], al); TF t = mk(x); same("forward", a->forward(t), w, 1e-4, 0.3); exact("input", t, x); }
}
TEST(large, 600) {
    int k = R.range(0, 3); VI d = dims(rk(1, 4), 500); double big = std::pow(10.0, R.range(1, 38)); float al = 0.01f; ND x = rx(d, big), w(d); x.v[0] = R.coin() ? 3.4e38 : -3.4e38; for (double& v : x.v) { v = (float)v; if (R.coin(5)) v = R.real(80, 120) * (R.coin() ? 1 : -1), v = (float)v; }
    auto a = act(k, al, true); CASE(nm[k], " of large ", show(x)); ND g = of(a->forward(mk(x)));
    for (size_t i = 0; i < x.v.size(); ++i) { double y = g.v[i]; if (std::isnan(y)) fail("NaN for ", x.v[i]); if (k == 2 && (y < 0 || y > 1)) fail("Sigmoid of ", x.v[i], " is ", y); if (k == 3 && (y < -1 || y > 1)) fail("Tanh of ", x.v[i], " is ", y); w.v[i] = f(k, x.v[i], al); }
    same("forward", g, w, 1e-4, 0.3);
}
TEST(softmax, 800) {
    Softmax<float> a; VI d; for (int nc = R.range(1, 3), c = 0; c < nc; ++c) { if (!c || R.coin()) d = dims(rk(2, 5), 3000); bool big = R.coin(3); ND x = rx(d, big ? std::pow(10.0, R.range(1, 30)) : 8), w(d); if (R.coin(5)) for (double& v : x.v) v -= R.coin() ? 200 : -200; for (double& v : x.v) v = (float)v; CASE("Softmax on ", show(x)); int b = d[0], n = x.v.size() / b;
    for (int i = 0; i < b; ++i) { double m = -1e300, s = 0; for (int j = 0; j < n; ++j) m = std::max(m, x.v[i * n + j]); for (int j = 0; j < n; ++j) s += std::exp(x.v[i * n + j] - m); for (int j = 0; j < n; ++j) w.v[i * n + j] = std::exp(x.v[i * n + j] - m) / s; }
    TF t = mk(x); TF y = a.forward(t); ND g = of(y); for (double v : g.v) if (!(v >= 0 && v <= 1)) fail("output ", v); for (int i = 0; i < b; ++i) { double s = 0; for (int j = 0; j < n; ++j) s += g.v[i * n + j]; if (std::fabs(s - 1) > 1e-3) fail("sum ", s); } same("forward", y, w, 1e-4, 0.3); exact("input", t, x); }
    throws("rank 1", [&] { Softmax<float> a; a.forward(mk(rnd({R.range(1, 5)}))); });
}
