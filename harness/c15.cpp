#include "layers.hpp"
static void stats(const ND& x, VD& m, VD& v, double& n) { int F = x.d[1]; m.assign(F, 0); v.assign(F, 0); n = x.v.size() / (double)F; each(x.d, [&](const VI& q) { m[q[1]] += x.at(q) / n; }); each(x.d, [&](const VI& q) { double e = x.at(q) - m[q[1]]; v[q[1]] += e * e / n; }); }
TEST(steps, 500) {
    int F = dim(5); bool df = R.coin(3); double eps = df ? 1e-5f : (float)R.real(1e-3, 0.1), mom = df ? 0.9f : (float)R.real(0, 1); BatchNormalizationLayer<float> L = df ? BatchNormalizationLayer<float>(F) : BatchNormalizationLayer<float>(F, eps, mom); VD gm(F, 1), bt(F, 0), rm(F, 0), rv(F, 1); CASE("BatchNorm ", F);
    throws("backward before forward", [&] { L.backward(mk(rnd({2, F}))); }); if (R.coin()) throws("rank", [&] { L.forward(mk(rnd(R.coin() ? VI{F} : R.coin() ? VI{2, F, 3} : VI{1, F, 1, 2, 1}))); }); bool trained = false;
    int n = R.range(1, 4); for (int s = 0; s < n; ++s) {
        VI d = R.coin() ? VI{R.range(2, 6), F} : VI{R.range(1, 3), F, R.range(1, 3), R.range(2, 4)}; if (R.coin(12)) d[0] = 1; ND x = rnd_pos(d, -3, 3), y(d); double N; VD m, v; stats(x, m, v, N); bool tr = R.coin(3) ? false : true; L.setTrainingMode(tr); CASE("BatchNorm ", F, " eps ", eps, " momentum ", mom, " step ", s, tr ? " training " : " inference ", show(x)); TF t = mk(x);
        bool tiny = false; for (double e : v) if (e < 1e-2) tiny = true; if (tr && tiny && eps < 1e-3) continue;
        const VD& um = tr ? m : rm; const VD& uv = tr ? v : rv; each(d, [&](const VI& q) { int f = q[1]; y.at(q) = gm[f] * (x.at(q) - um[f]) / std::sqrt(uv[f] + eps) + bt[f]; }); same("forward", L.forward(t), y, 1e-3, 2); exact("input", t, x);
        if (tr) { trained = true; for (int f = 0; f < F; ++f) { rm[f] = mom * rm[f] + (1 - mom) * m[f]; rv[f] = mom * rv[f] + (1 - mom) * v[f]; }
            if (R.coin(3)) { L.setTrainingMode(false); VI dz = R.coin() ? d : VI{R.range(2, 6), F}; ND z = rnd_pos(dz, -3, 3), u(dz); each(dz, [&](const VI& q) { int f = q[1]; u.at(q) = gm[f] * (z.at(q) - rm[f]) / std::sqrt(rv[f] + eps) + bt[f]; }); same("inference between forward and backward", L.forward(mk(z)), u, 1e-3, 2); L.setTrainingMode(true); }
            ND g = rnd_pos(d, -1, 1), gi(d); VD sg(F, 0), sgx(F, 0); each(d, [&](const VI& q) { int f = q[1]; sg[f] += g.at(q); sgx[f] += g.at(q) * (x.at(q) - m[f]) / std::sqrt(v[f] + eps); }); each(d, [&](const VI& q) { int f = q[1]; double is = 1 / std::sqrt(v[f] + eps); gi.at(q) = gm[f] * is * (g.at(q) - sg[f] / N - (x.at(q) - m[f]) * is * sgx[f] / N); });
            TF gt = mk(g); same("input gradient", L.backward(gt), gi, 2e-3, 3); exact("upstream", gt, g); Grab G; L.updateWeights(G); if (G.calls != 1 || G.w.size() != 2 || G.g.size() != 2) fail("optimizer");
            ND eg(VI{F}), eb(VI{F}); eg.v = sgx; eb.v = sg; ND ag = G.gv[0], ab = G.gv[1]; ag.d = {F}; ab.d = {F}; same("gamma gradient", ag, eg, 2e-3, 3); same("beta gradient", ab, eb, 2e-3, 3); ND wg = G.wv[0], wb = G.wv[1]; wg.d = wb.d = {F}; eg.v = gm; eb.v = bt; same("gamma", wg, eg, 1e-5); same("beta", wb, eb, 1e-5);
            ND ng = rnd_pos({1, F}, -2, 2), nb = rnd_pos({1, F}, -2, 2); G.act = [&] { set(*G.w[0], ng); set(*G.w[1], nb); }; L.updateWeights(G); for (int f = 0; f < F; ++f) gm[f] = (float)ng.v[f], bt[f] = (float)nb.v[f]; }
        else if (!trained) throws("backward before training", [&] { L.backward(mk(rnd(d))); });
        if (R.coin(3)) { bool t2 = false; L.setTrainingMode(t2); ND z = rnd_pos(d, -3, 3), u(d); each(d, [&](const VI& q) { int f = q[1]; u.at(q) = gm[f] * (z.at(q) - rm[f]) / std::sqrt(rv[f] + eps) + bt[f]; }); same("inference", L.forward(mk(z)), u, 1e-3, 2); same("inference again", L.forward(mk(z)), u, 1e-3, 2); }
    }
}
