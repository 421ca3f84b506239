#include "layers.hpp"
static const double NO = -1;
struct Ref { virtual ~Ref() {} virtual void step(int id, VD& w, const VD& g, double lr) = 0; virtual void tick(double) {} };
struct RSGD : Ref { SGDOptions<float> o; std::map<int, VD> v; void step(int id, VD& w, const VD& g0, double lr) override { auto& b = v[id]; b.resize(w.size(), 0); double r = lr > 0 ? lr : o.learningRate; for (size_t i = 0; i < w.size(); ++i) { double g = g0[i] + o.weightDecay * w[i]; if (o.momentum != 0) { b[i] = o.momentum * b[i] + (1.0 - o.dampening) * g; g = o.nesterov ? g + o.momentum * b[i] : b[i]; } w[i] -= r * g; } } };
struct RRMS : Ref { RMSPropOptions<float> o; std::map<int, VD> s, m, v; void step(int id, VD& w, const VD& g0, double lr) override { auto &a = s[id], &b = m[id], &c = v[id]; a.resize(w.size(), 0); b.resize(w.size(), 0); c.resize(w.size(), 0); double r = lr > 0 ? lr : o.learningRate; for (size_t i = 0; i < w.size(); ++i) { double g = g0[i] + o.weightDecay * w[i]; a[i] = o.alpha * a[i] + (1.0 - o.alpha) * g * g; double d = a[i]; if (o.centered) { b[i] = o.alpha * b[i] + (1.0 - o.alpha) * g; d -= b[i] * b[i]; } double u = g / std::sqrt(d + o.epsilon); if (o.momentum > 0) { c[i] = o.momentum * c[i] + u; u = c[i]; } w[i] -= r * u; } } };
struct RAdam : Ref { AdamOptions<float> o; std::map<int, VD> m, v; std::map<int, int> n; int it = 0; void tick(double) override { ++it; } void step(int id, VD& w, const VD& g0, double lr) override { auto &a = m[id], &b = v[id]; a.resize(w.size(), 0); b.resize(w.size(), 0); int k = ++n[id]; double r = lr > 0 ? lr : o.learningRate / (o.decay > 0 ? 1 + (double)o.decay * it : 1); for (size_t i = 0; i < w.size(); ++i) { double g = g0[i] / o.batchSize; a[i] = o.beta1 * a[i] + (1.0 - o.beta1) * g; b[i] = o.beta2 * b[i] + (1.0 - o.beta2) * g * g; double u = a[i] / (1 - std::pow((double)o.beta1, k)) / (std::sqrt(b[i] / (1 - std::pow((double)o.beta2, k))) + o.epsilon); if (o.l1Strength > 0) u += o.l1Strength * (w[i] > 0 ? 1 : w[i] < 0 ? -1 : 0); if (o.l2Strength > 0) u += o.l2Strength * w[i]; w[i] -= r * u; } } };
static std::string note;
static void make(int k, bool df, std::unique_ptr<Optimizer<float>>& op, std::unique_ptr<Ref>& rf) {
    auto rr = [](double a, double b) { return (float)R.real(a, b); }; note = "";
    if (k == 0) { auto r = std::make_unique<RSGD>(); if (!df) { r->o.learningRate = rr(0.01, 0.3); r->o.momentum = R.coin(3) ? 0 : rr(0.1, 0.95); r->o.dampening = R.coin() ? 0 : rr(0, 0.5); r->o.weightDecay = R.coin() ? 0 : rr(0, 0.3); r->o.nesterov = R.coin(); } note = cat("SGD lr ", r->o.learningRate, " momentum ", r->o.momentum, " dampening ", r->o.dampening, " decay ", r->o.weightDecay, " nesterov ", r->o.nesterov); if (df) op = std::make_unique<SGDOptimizer<float>>(); else op = std::make_unique<SGDOptimizer<float>>(r->o); rf = std::move(r); }
    else if (k == 1) { auto r = std::make_unique<RRMS>(); if (!df) { r->o.learningRate = rr(0.01, 0.3); r->o.alpha = rr(0.3, 0.99); r->o.epsilon = rr(1e-4, 0.1); r->o.momentum = R.coin() ? 0 : rr(0.1, 0.9); r->o.centered = R.coin(); r->o.weightDecay = R.coin() ? 0 : rr(0, 0.3); } note = cat("RMSProp lr ", r->o.learningRate, " alpha ", r->o.alpha, " epsilon ", r->o.epsilon, " momentum ", r->o.momentum, " centered ", r->o.centered, " decay ", r->o.weightDecay); if (df) op = std::make_unique<RMSPropOptimizer<float>>(); else op = std::make_unique<RMSPropOptimizer<float>>(r->o); rf = std::move(r); }
    else { auto r = std::make_unique<RAdam>(); if (!df) { r->o.learningRate = rr(0.01, 0.3); r->o.beta1 = rr(0.3, 0.95); r->o.beta2 = rr(0.5, 0.999); r->o.epsilon = rr(1e-4, 0.1); r->o.l1Strength = R.coin() ? 0 : rr(0, 0.3); r->o.l2Strength = R.coin() ? 0 : rr(0, 0.3); r->o.decay = R.coin() ? 0 : rr(0, 0.5); r->o.batchSize = R.coin() ? 1 : R.range(1, 8); } note = cat("Adam lr ", r->o.learningRate, " beta1 ", r->o.beta1, " beta2 ", r->o.beta2, " epsilon ", r->o.epsilon, " l1 ", r->o.l1Strength, " l2 ", r->o.l2Strength, " decay ", r->o.decay, " batch ", r->o.batchSize); if (df) op = std::make_unique<AdamOptimizer<float>>(); else op = std::make_unique<AdamOptimizer<float>>(r->o); rf = std::move(r); }
}
TEST(steps, 700) {
    int k = R.range(0, 2); std::unique_ptr<Optimizer<float>> op; std::unique_ptr<Ref> rf; make(k, R.coin(4), op, rf); int nt = R.range(1, 4); std::vector<std::unique_ptr<TF>> W, G; std::vector<ND> w, g;
    for (int i = 0; i < nt; ++i) { VI d = R.coin(40) ? VI{R.range(2, 3), R.range(400, 700)} : dims(rk(1, 4), 300); w.push_back(rnd(d)); W.push_back(std::make_unique<TF>(mk(w[i]))); G.push_back(std::make_unique<TF>(mk(w[i]))); g.push_back(w[i]); }
    int n = R.range(1, 6); std::string hist; for (int s = 0; s < n; ++s) {
        std::vector<int> sel; for (int i = 0; i < nt; ++i) if (s == 0 || R.coin(2)) sel.push_back(i); if (R.coin()) std::reverse(sel.begin(), sel.end()); double lr = R.coin(4) ? (float)R.real(0.01, 0.5) : R.coin(6) ? 0 : -1; Refs a, b; hist += cat(" ", str(sel), "@", lr); CASE(note, " calls", hist, " sizes of the first ", str(w[0].d));
        for (int i : sel) { ND ng = rnd(w[i].d, 1); if (R.coin(5) && ng.v.size() > 1) { ng.d = {(int)ng.v.size()}; } g[i] = ng; *G[i] = mk(ng); for (double& z : g[i].v) z = (float)z; a.push_back(*W[i]); b.push_back(*G[i]); }
        bool dflt = lr == -1 && R.coin(); if (dflt) op->optimize(a, b); else op->optimize(a, b, (float)lr); rf->tick(lr);
        for (int i : sel) rf->step(i, w[i].v, g[i].v, lr);
        for (int i = 0; i < nt; ++i) { same(cat("tensor ", i), *W[i], w[i], 2e-3, 1); for (size_t j = 0; j < w[i].v.size(); ++j) w[i].v[j] = W[i]->getData().data()[j]; exact(cat("gradient ", i), *G[i], g[i]); }
    }
}
TEST(reject, 100) {
    int k = R.range(0, 2); std::unique_ptr<Optimizer<float>> op; std::unique_ptr<Ref> rf; make(k, true, op, rf); VI d = dims(rk(1, 3), 100); ND x = rnd(d); TF w = mk(x), v = mk(x), g = mk(x); CASE(note, " lists"); throws("more weights", [&] { op->optimize({w, v}, {g}); }); throws("more gradients", [&] { op->optimize({w}, {g, v}); }); exact("weight", w, x); exact("other", v, x);
    VI e = d; e[R.range(0, (int)e.size() - 1)] += R.range(1, 2); TF h = mk(rnd(e)); throws("larger gradient", [&] { op->optimize({w}, {h}); }); TF l = mk(rnd(e)); throws("smaller gradient", [&] { op->optimize({l}, {g}); }); exact("weight", w, x);
}
TEST(reuse, 60) { // a tensor of another shape at the same place
    int k = R.range(0, 2); std::unique_ptr<Optimizer<float>> op; std::unique_ptr<Ref> rf; make(k, false, op, rf); CASE(note, " a tensor replaced by a larger one"); TF w = mk(rnd({2})), g = mk(rnd({2})); op->optimize({w}, {g}); rf->tick(-1); ND x = rnd({3, 5}), y = rnd({3, 5}, 1); w = mk(x); g = mk(y); for (double& z : x.v) z = (float)z; op->optimize({w}, {g}); rf->tick(-1); rf->step(99, x.v, y.v, -1); same("replaced tensor", w, x, 2e-3, 1);
}
