#include "layers.hpp"
TEST(conv, 450) {
    int ci = R.range(1, 3), co = R.range(1, 3), kh = R.range(1, 3), kw = R.coin(3) ? kh : R.range(1, 3), st = R.range(1, 3), pd = R.range(0, 3), dl = R.range(1, 3);
    if (!g_pool.empty() && R.coin(40)) ci = std::min(40, R.pick(g_pool)); else if (R.coin(20)) co = R.range(4, 9);
    bool sq = kh == kw && R.coin(); bool df = R.coin(6); if (df) { st = 1; pd = 0; dl = 1; }
    Conv2DLayer<float> L = sq && df ? Conv2DLayer<float>(ci, co, kh) : Conv2DLayer<float>(ci, co, kh, kw, st, pd, dl);
    CASE("Conv2D ", ci, "->", co, " kernel ", kh, "x", kw, " stride ", st, " padding ", pd, " dilation ", dl); same_dims("weights", dims_of(L.getWeights().getShape()), {co, ci, kh, kw});
    throws("backward before forward", [&] { L.backward(mk(rnd({1, co, 1, 1}))); });
    ND W = rnd({co, ci, kh, kw}), b = rnd({co, 1}); L.setWeights(mk(W)); L.setBiases(mk(b)); int n = R.range(1, 3), B = 0, H = 0, Wd = 0;
    for (int s = 0; s < n; ++s) {
        if (!B || R.coin()) { B = R.range(1, 3), H = R.range(1, 6), Wd = R.range(1, 6); } int sh = H + 2 * pd - dl * (kh - 1) - 1, sw = Wd + 2 * pd - dl * (kw - 1) - 1; if (sh < 0 || sw < 0) continue; int oh = sh / st + 1, ow = sw / st + 1;
        ND x = rnd({B, ci, H, Wd}), y(VI{B, co, oh, ow}), g = rnd(y.d), gi(x.d), gw(W.d), gb(b.d); CASE("Conv2D ", ci, "->", co, " kernel ", kh, "x", kw, " stride ", st, " padding ", pd, " dilation ", dl, " step ", s, " input ", str(x.d));
        each(y.d, [&](const VI& q) { double v = b.at({q[1], 0}); gb.at({q[1], 0}) += g.at(q); for (int c = 0; c < ci; ++c) for (int i = 0; i < kh; ++i) for (int j = 0; j < kw; ++j) { int r = q[2] * st + i * dl - pd, k = q[3] * st + j * dl - pd; if (r < 0 || k < 0 || r >= H || k >= Wd) continue; VI xi{q[0], c, r, k}, wi{q[1], c, i, j}; v += x.at(xi) * W.at(wi); gi.at(xi) += g.at(q) * W.at(wi); gw.at(wi) += g.at(q) * x.at(xi); } y.at(q) = v; });
        if (R.coin(3)) L.setTrainingMode(R.coin()); TF t = mk(x); same("forward", L.forward(t), y, 1e-4, 3); exact("input", t, x); set(t, rnd(x.d)); if (R.coin(6)) L.setTrainingMode(R.coin()); int m = R.range(0, 2); for (int k = 0; k < m; ++k) { TF gt = mk(g); same("input gradient", L.backward(gt), gi, 1e-4, 3); exact("upstream", gt, g); same("weight gradient", L.getWeightGradients(), gw, 1e-4, 3); same("bias gradient", L.getBiasGradients(), gb, 1e-4, 3); }
        same("weights", L.getWeights(), W, 0); same("biases", L.getBiases(), b, 0); if (!m) continue; Grab G; L.updateWeights(G); if (G.calls != 1 || G.w.size() != 2 || G.g.size() != 2) fail("optimizer"); same("optimizer weights", G.wv[0], W, 0); same("optimizer gradients", G.gv[0], gw, 1e-4, 3); same("optimizer biases", G.wv[1], b, 0); same("optimizer bias gradients", G.gv[1], gb, 1e-4, 3);
    }
}
