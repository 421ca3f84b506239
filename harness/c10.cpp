#include "layers.hpp"
static double f(int k, double x, double al) {
    switch (k) { case 0: return x > 0 ? x : 0; case 1: return x > 0 ? x : al * x; case 2: return 1 / (1 + std::exp(-x)); case 3: return std::tanh(x); case 4: return x / (1 + std::exp(-x)); default: return x * std::tanh(std::log1p(std::exp(x))); }
}
static double df(int k, double x, double al) { if (k == 0) return x > 0; if (k == 1) return x > 0 ? 1 : al; double h = 1e-5; return (f(k, x + h, al) - f(k, x - h, al)) / (2 * h); }
static std::unique_ptr<Activation<float>> act(int k, float al) {
    switch (k) { case 0: return std::make_unique<ReLU<float>>(); case 1: return std::make_unique<LeakyReLU<float>>(al); case 2: return std::make_unique<Sigmoid<float>>(); case 3: return std::make_unique<Tanh<float>>(); case 4: return std::make_unique<Swish<float>>(); default: return std::make_unique<Mish<float>>(); }
}
static const char* nm[] = {"ReLU", "LeakyReLU", "Sigmoid", "Tanh", "Swish", "Mish"};
static ND rx(const VI& d) { ND x(d); for (double& v : x.v) { v = (float)R.real(-4, 4); if (R.coin(8)) v = (float)R.real(-12, 12); if (std::fabs(v) < 1e-3) v = 0.5; } return x; }
TEST(elementwise, 1200) {
    int k = R.range(0, 5); float al = (float)R.real(R.coin(4) ? -2 : 0.001, R.coin(3) ? 3 : 0.9); auto a = act(k, al); VI d; for (int n = R.range(1, 3), c = 0; c < n; ++c) { if (!c || R.coin()) d = dims(rk(1, 5), 3000); ND x = rx(d), g = rnd(d), w(d); if (R.coin(4)) a->forward(mk(rx(d))); CASE(nm[k], " gradient, call ", c, " on ", str(d));
    for (size_t i = 0; i < x.v.size(); ++i) w.v[i] = df(k, x.v[i], al) * g.v[i]; TF t = mk(x), u = mk(g); same("backward", a->backward(t, u), w, 2e-4, 1); exact("input", t, x); exact("upstream", u, g); }
}
TEST(zero_point, 60) { // one of the two one-sided derivatives at the kink
    int k = R.range(0, 1); float al = 0.25f; ND x(VI{3}), g(VI{3}); g.v = {1, 2, -3}; auto a = act(k, al); CASE(nm[k], " gradient at 0"); ND r = of(a->backward(mk(x), mk(g))); for (int i = 0; i < 3; ++i) { double lo = (k ? al : 0) * g.v[i], hi = g.v[i]; if (lo > hi) std::swap(lo, hi); if (!(r.v[i] >= lo - 1e-6 && r.v[i] <= hi + 1e-6)) fail("gradient ", r.v[i], " at 0"); }
}
static ND smg(const ND& x, const ND& g) {
    int b = x.d[0], n = x.v.size() / b; ND w(x.d);
    for (int i = 0; i < b; ++i) { double m = -1e300, s = 0; VD y(n); for (int j = 0; j < n; ++j) m = std::max(m, x.v[i * n + j]); for (int j = 0; j < n; ++j) s += y[j] = std::exp(x.v[i * n + j] - m); double dot = 0; for (int j = 0; j < n; ++j) y[j] /= s, dot += y[j] * g.v[i * n + j]; for (int j = 0; j < n; ++j) w.v[i * n + j] = y[j] * (g.v[i * n + j] - dot); }
    return w;
}
TEST(softmax, 600) { Softmax<float> a; VI d; for (int n = R.range(1, 3), c = 0; c < n; ++c) { if (!c || R.coin()) d = dims(rk(2, 5), 800); if (R.coin(4)) a.forward(mk(rx(d))); ND x = rx(d), g = rnd(d); CASE("Softmax gradient on ", str(d)); TF t = mk(x), u = mk(g); same("backward", a.backward(t, u), smg(x, g), 2e-4, 1); exact("input", t, x); exact("upstream", u, g); } }
TEST(layer, 400) {
    int k = R.range(0, 6); float al = 0.2f; auto make = [&]() -> std::unique_ptr<Layer<float>> { switch (k) { case 0: return std::make_unique<ActivationLayer<float>>(ReLU<float>()); case 1: return std::make_unique<ActivationLayer<float>>(LeakyReLU<float>(al)); case 2: return std::make_unique<ActivationLayer<float>>(Sigmoid<float>()); case 3: return std::make_unique<ActivationLayer<float>>(Tanh<float>()); case 4: return std::make_unique<ActivationLayer<float>>(Swish<float>()); case 5: return std::make_unique<ActivationLayer<float>>(Mish<float>()); default: return std::make_unique<ActivationLayer<float>>(Softmax<float>()); } };
    auto L = make(); VI d0 = dims(rk(2, 4), 300); CASE("activation layer ", k, " backward first"); throws("backward before forward", [&] { L->backward(mk(rnd(d0))); });
    int n = R.range(1, 3); for (int i = 0; i < n; ++i) {
        VI d = dims(rk(2, 4), 300); ND x = rx(d), w(d); bool eval = R.coin(3); L->setTrainingMode(!eval); CASE("activation layer ", k, " step ", i, " ", str(d)); TF t = mk(x); TF y = L->forward(t);
        ND fw(d); if (k < 6) { for (size_t j = 0; j < x.v.size(); ++j) fw.v[j] = f(k, x.v[j], al); same("forward", y, fw, 1e-4, 0.3); }
        for (int m = R.range(1, 2); m > 0; --m) { ND g = rnd(d); if (k < 6) for (size_t j = 0; j < x.v.size(); ++j) w.v[j] = df(k, x.v[j], al) * g.v[j]; else w = smg(x, g); same("backward", L->backward(mk(g)), w, 2e-4, 1); }
        set(t, rnd(d)); ND g = rnd(d); if (k < 6) for (size_t j = 0; j < x.v.size(); ++j) w.v[j] = df(k, x.v[j], al) * g.v[j]; else w = smg(x, g); same("backward after the caller changed its input", L->backward(mk(g)), w, 2e-4, 1);
    }
}
