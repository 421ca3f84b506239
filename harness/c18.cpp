#include "layers.hpp"
TEST(mse, 500) {
    MSELoss<float> L; VI d; bool flat = false; for (int steps = R.range(1, 3), k = 0; k < steps; ++k) { if (!k || R.coin()) d = dims(rk(1, 5), 3000), flat = false; ND p = rnd(d), t = rnd(d); if (flat) t = rnd({d[0]}); else if (R.coin(4)) { flat = true; d = {dim(8), 1}; p = rnd(d); t = rnd({d[0]}); } CASE("MSE call ", k, " ", str(p.d), " against ", str(t.d)); bool gfirst = R.coin(4); if (gfirst) L.gradient(mk(p), mk(t)); TF a = mk(p), b = mk(t); double n = p.v.size(), s = 0; ND g(p.d); for (size_t i = 0; i < p.v.size(); ++i) { double e = p.v[i] - t.v[i]; s += e * e / n; g.v[i] = 2 * e / n; } TF l = L.compute(a, b); if (l.getShape().size() != 1) fail("loss has ", l.getShape().size(), " elements"); if (!close(l.getData().data()[0], s, 1e-3)) fail("loss ", l.getData().data()[0], " instead of ", s); same("gradient", L.gradient(a, b), g, 1e-4, 0.05); exact("prediction", a, p); exact("target", b, t); ND t2 = rnd(t.d), g2(p.d); for (size_t i = 0; i < p.v.size(); ++i) g2.v[i] = 2 * (p.v[i] - t2.v[i]) / n; same("gradient against another target", L.gradient(a, mk(t2)), g2, 1e-4, 0.05); }
}
TEST(cce, 500) {
    CategoricalCrossEntropyLoss<float> L; VI d; for (int n = R.range(1, 3), k = 0; k < n; ++k) { if (!k || R.coin()) d = {dim(6), dim(12)}; ND p = rnd_pos(d, 0.001, 0.999), t(d); if (R.coin()) for (double& z : p.v) if (R.coin(4)) z = R.coin() ? 0 : 1; if (R.coin(5)) for (double& z : p.v) if (R.coin(4)) z = R.coin() ? -0.5 : 1.5; for (int i = 0; i < d[0]; ++i) if (R.coin()) t.at({i, R.range(0, d[1] - 1)}) = 1; else if (R.coin(4)) continue; else for (int j = 0; j < d[1]; ++j) t.at({i, j}) = (float)R.real(0, 1);
    CASE("cross entropy ", show(p), " against ", show(t)); TF a = mk(p), b = mk(t); ND g(d); double s = 0, lo = 1e-7f, hi = 1.0f - 1e-7f; for (size_t i = 0; i < p.v.size(); ++i) { double q = std::min(std::max((double)(float)p.v[i], lo), hi); s -= (float)t.v[i] * std::log(q) / d[0]; g.v[i] = -(double)(float)t.v[i] / q / d[0]; } TF l = L.compute(a, b); if (l.getShape().size() != 1) fail("loss has ", l.getShape().size(), " elements"); if (!close(l.getData().data()[0], s, 1e-3)) fail("loss ", l.getData().data()[0], " instead of ", s); same("gradient", L.gradient(a, b), g, 1e-4, 0.3); exact("prediction", a, p); exact("target", b, t); ND t2(d), g2(d); for (int i = 0; i < d[0]; ++i) t2.at({i, R.range(0, d[1] - 1)}) = 1; for (size_t i = 0; i < p.v.size(); ++i) { double q = std::min(std::max((double)(float)p.v[i], lo), hi); g2.v[i] = -t2.v[i] / q / d[0]; } same("gradient against another target", L.gradient(a, mk(t2)), g2, 1e-4, 0.3); }
}
TEST(reject, 200) {
    VI d = dims(2, 200), e = d; e[R.range(0, 1)] += R.range(1, 2); MSELoss<float> M; CategoricalCrossEntropyLoss<float> C; TF a = mk(rnd_pos(d, 0.1, 0.9)), b = mk(rnd_pos(e, 0.1, 0.9)); CASE("loss of ", str(d), " against ", str(e)); throws("MSE", [&] { M.compute(a, b); }); throws("MSE gradient", [&] { M.gradient(a, b); }); throws("cross entropy", [&] { C.compute(a, b); }); throws("cross entropy gradient", [&] { C.gradient(a, b); });
    VI f = {d[1], d[0]}; if (f != d) { TF c = mk(rnd_pos(f, 0.1, 0.9)); throws("MSE transposed", [&] { M.compute(a, c); }); throws("MSE transposed gradient", [&] { M.gradient(a, c); }); throws("cross entropy transposed", [&] { C.compute(a, c); }); throws("cross entropy transposed gradient", [&] { C.gradient(a, c); }); }
    TF t1 = mk(rnd({d[0] + 1})); throws("MSE rank 1", [&] { M.compute(a, t1); }); throws("MSE rank 1 gradient", [&] { M.gradient(a, t1); }); if (d[1] > 1) { TF t2 = mk(rnd({d[0]})); throws("MSE rank 1, several columns", [&] { M.compute(a, t2); }); throws("MSE rank 1, several columns gradient", [&] { M.gradient(a, t2); }); }
}
