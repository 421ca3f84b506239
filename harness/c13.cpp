#include "layers.hpp"
TEST(pool, 900) {
    int k = R.range(1, 4), st = R.range(1, 4), pd = R.range(0, k - 1), ct = R.range(0, 2); if (ct == 0) { st = k; pd = 0; } if (ct == 1) pd = 0;
    MaxPooling2DLayer<float> L = ct == 0 ? MaxPooling2DLayer<float>(k) : ct == 1 ? MaxPooling2DLayer<float>(k, st) : MaxPooling2DLayer<float>(k, st, pd); CASE("MaxPooling2D ", k, " stride ", st, " padding ", pd);
    throws("backward before forward", [&] { L.backward(mk(rnd({1, 1, 1, 1}))); }); throws("rank", [&] { L.forward(mk(rnd(dims(R.coin() ? R.range(1, 3) : 5, 100)))); });
    int n = R.range(1, 3), B = 0, C = 0, H = 0, W = 0; for (int s = 0; s < n; ++s) {
        if (!B || R.coin()) { B = R.range(1, 3), C = R.range(1, 3), H = dim(7), W = dim(7); } if (H + 2 * pd < k || W + 2 * pd < k) continue; int oh = (H + 2 * pd - k) / st + 1, ow = (W + 2 * pd - k) / st + 1; ND x = rnd({B, C, H, W}), y(VI{B, C, oh, ow}), g = rnd(y.d), gi(x.d);
        if (R.coin(4)) for (double& v : x.v) v -= 1000; if (R.coin(5)) for (double& v : x.v) v = R.range(0, 1); if (R.coin(12)) for (double& v : x.v) v = -std::numeric_limits<double>::infinity();
        CASE("MaxPooling2D ", k, " stride ", st, " padding ", pd, " step ", s, " input ", show(x)); bool hole = false;
        each(y.d, [&](const VI& q) { int bi = -1, bj = -1; for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) { int r = q[2] * st - pd + i, c = q[3] * st - pd + j; if (r < 0 || c < 0 || r >= H || c >= W) continue; if (bi < 0 || x.at({q[0], q[1], r, c}) > x.at({q[0], q[1], bi, bj})) bi = r, bj = c; } if (bi < 0) { hole = true; return; } y.at(q) = x.at({q[0], q[1], bi, bj}); gi.at({q[0], q[1], bi, bj}) += g.at(q); });
        if (hole) continue; if (R.coin(3)) L.setTrainingMode(R.coin()); TF t = mk(x); same("forward", L.forward(t), y, 1e-6); exact("input", t, x); set(t, rnd(x.d)); if (R.coin(6)) L.setTrainingMode(R.coin()); for (int m = R.range(0, 2); m > 0; --m) { TF gt = mk(g); same("input gradient", L.backward(gt), gi, 1e-4); exact("upstream", gt, g); }
    }
}
