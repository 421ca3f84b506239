#include "layers.hpp"
TEST(mask, 400) {
    double r = R.coin(8) ? 0 : (float)R.real(0, 0.9); DropoutLayer<float> L(r); VI d = dims(rk(1, 5), 3000); RandomEngine::setSeed(R.range(0, 1 << 30)); double f = 1 / (1 - r); CASE("Dropout ", r, " ", str(d)); throws("backward before forward", [&] { L.backward(mk(rnd(d))); });
    L.setTrainingMode(false); ND x = rnd_nz(d); TF t = mk(x); exact("inference forward", L.forward(t), x); exact("inference backward", L.backward(t), x); L.setTrainingMode(true); throws("backward before training", [&] { L.backward(mk(x)); });
    int n = R.range(1, 3); for (int s = 0; s < n; ++s) {
        VI e = R.coin() ? d : dims(rk(1, 5), 3000); ND z = rnd_nz(e); TF u = mk(z); CASE("Dropout ", r, " step ", s, " ", str(e)); TF yt = L.forward(u); shape_ok("forward", yt.getShape()); ND y = of(yt); same_dims("forward", y.d, e); exact("input", u, z); VD fac(z.v.size());
        for (size_t i = 0; i < z.v.size(); ++i) { if (y.v[i] == 0) fac[i] = 0; else if (close(y.v[i], z.v[i] * f, 1e-4)) fac[i] = f; else fail("element ", i, ": ", y.v[i], " from ", z.v[i]); if (r == 0 && fac[i] == 0) fail("dropped at rate 0"); }
        if (R.coin(3)) { L.setTrainingMode(false); ND k = rnd(dims(2, 50)); exact("inference forward", L.forward(mk(k)), k); exact("inference backward", L.backward(mk(k)), k); L.setTrainingMode(true); }
        for (int m = R.range(1, 2); m > 0; --m) { ND g = rnd_nz(e), w(e); TF gt = mk(g); for (size_t i = 0; i < w.v.size(); ++i) w.v[i] = g.v[i] * fac[i]; same("backward", L.backward(gt), w, 1e-4); exact("upstream", gt, g); }
        VI o = e; o[0] += 1; throws("backward of another shape", [&] { L.backward(mk(rnd(o))); });
    }
}
TEST(rate, 12) {
    double r = R.range(1, 9) / 10.0; DropoutLayer<float> L((float)r); RandomEngine::setSeed(R.range(0, 1 << 30)); int h = 150, w = 200; static const std::vector<VI> forms = {{150, 200}, {30000}, {10, 15, 200}, {5, 3, 10, 200}, {2, 5, 3, 5, 200}}; ND x(R.pick(forms), 1.0); CASE("Dropout rate ", r, " ", str(x.d)); ND y = of(L.forward(mk(x))), y2 = of(L.forward(mk(x))); double n = h * w, k = 0, kk = 0, c = 0, same_ = 0; VD row(h, 0), col(w, 0);
    for (size_t i = 0; i < y.v.size(); ++i) { bool z = y.v[i] == 0; k += z; row[i / w] += z; col[i % w] += z; if (i) kk += z && y.v[i - 1] == 0; if (z == (y2.v[i] == 0)) same_++; }
    double sd = std::sqrt(n * r * (1 - r)); if (std::fabs(k - n * r) > 6.5 * sd) fail("dropped ", k, " of ", n); double p2 = r * r; if (std::fabs(kk - (n - 1) * p2) > 8 * std::sqrt(n * p2 * (1 - p2)) + 2 * r * 6 * sd) fail("neighbours dropped together ", kk, " of ", n); double ps = r * r + (1 - r) * (1 - r); if (std::fabs(same_ - n * ps) > 10 * std::sqrt(n * 0.25)) fail("two passes agree on ", same_, " of ", n);
    for (double z : row) if (std::fabs(z - w * r) > 7 * std::sqrt(w * r * (1 - r))) fail("a row drops ", z, " of ", w); for (double z : col) if (std::fabs(z - h * r) > 7 * std::sqrt(h * r * (1 - r))) fail("a column drops ", z, " of ", h);
}
