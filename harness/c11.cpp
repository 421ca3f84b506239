#include "layers.hpp"
TEST(steps, 500) {
    int in = dim(8), out = dim(8); FullyConnectedLayer<float> L(in, out); CASE("FullyConnected ", in, " ", out); same_dims("weights", dims_of(L.getWeights().getShape()), {in, out}); same_dims("biases", dims_of(L.getBiases().getShape()), {1, out});
    throws("backward before forward", [&] { L.backward(mk(rnd({1, out}))); });
    ND W = rnd({in, out}), b = rnd({1, out}); TF wt = mk(W), bt = mk(b); L.setWeights(wt); L.setBiases(bt);
    int n = R.range(1, 4), B = 0; bool one = false; for (int s = 0; s < n; ++s) {
        if (!B || R.coin()) { one = R.coin(3); B = one ? 1 : dim(6); } ND x = rnd(one ? VI{in} : VI{B, in}); CASE("FullyConnected ", in, " ", out, " step ", s, " input ", str(x.d)); if (R.coin(3)) L.setTrainingMode(R.coin()); TF t = mk(x); ND y(one ? VI{out} : VI{B, out});
        for (int i = 0; i < B; ++i) for (int o = 0; o < out; ++o) { double v = b.v[o]; for (int k = 0; k < in; ++k) v += x.v[i * in + k] * W.at({k, o}); y.v[i * out + o] = v; }
        same("forward", L.forward(t), y, 1e-4, 3); exact("input", t, x);
        if (R.coin(4)) { int w2 = in + R.range(1, 2); throws("width", [&] { FullyConnectedLayer<float> M(in, out); M.forward(mk(rnd({B, w2}))); }); throws("width", [&] { FullyConnectedLayer<float> M(in, out); M.forward(mk(rnd({w2}))); }); }
        for (int m = R.range(0, 2); m > 0; --m) {
            ND g = rnd(one && R.coin() ? VI{out} : VI{B, out}); TF gt = mk(g); ND gi(x.d), gw(VI{in, out}), gb(VI{1, out});
            for (int i = 0; i < B; ++i) for (int o = 0; o < out; ++o) { double z = g.v[i * out + o]; gb.v[o] += z; for (int k = 0; k < in; ++k) { gi.v[i * in + k] += z * W.at({k, o}); gw.at({k, o}) += z * x.v[i * in + k]; } }
            set(t, rnd(x.d)); same("input gradient", L.backward(gt), gi, 1e-4, 3); exact("upstream", gt, g); same("weight gradient", L.getWeightGradients(), gw, 1e-4, 3); same("bias gradient", L.getBiasGradients(), gb, 1e-4, 3);
            same("weights after backward", L.getWeights(), W, 0); same("biases after backward", L.getBiases(), b, 0);
            Grab G; L.updateWeights(G); if (G.calls != 1 || G.w.size() != 2 || G.g.size() != 2) fail("optimizer called ", G.calls, " times with ", G.w.size(), " weights");
            int wi = G.wv[0].d == VI{in, out} && G.wv[0].v == of(mk(W)).v ? 0 : 1; same("optimizer weights", G.wv[wi], W, 1e-6); same("optimizer biases", G.wv[1 - wi], b, 1e-6); same("optimizer weight gradient", G.gv[wi], gw, 1e-4, 3); same("optimizer bias gradient", G.gv[1 - wi], gb, 1e-4, 3);
            if (!(in == 1 && W.v == b.v)) { W = rnd({in, out}); b = rnd({1, out}); G.act = [&] { set(*G.w[wi], W); set(*G.w[1 - wi], b); }; L.updateWeights(G); same("updated weights", L.getWeights(), W, 0); same("updated biases", L.getBiases(), b, 0); }
        }
    }
}
