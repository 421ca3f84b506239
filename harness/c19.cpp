#include "layers.hpp"
#include "smart_dnn/SmartDNN.hpp"
static std::vector<std::string>* LOG; static void lg(const std::string& s) { LOG->push_back(s); }
static std::string sv(const TF& t) { ND a = of(t); return show(a); }
static TF add(const TF& t, double x, double m) { ND a = of(t); for (double& z : a.v) z = (float)(z * m + x); return mk(a); }
struct Tag : Layer<float> { int id; Tag(int i) : id(i) {} TF forward(const TF& t) override { lg(cat("f", id, this->trainingMode ? "t" : "e", sv(t))); return add(t, id + 1, 2); } TF backward(const TF& g) override { lg(cat("b", id, sv(g))); return add(g, -0.5 * id - 1, -1); } void updateWeights(Optimizer<float>& o) override { lg(cat("u", id)); o.optimize({}, {}, (float)id + 1); } };
struct Los : Loss<float> { TF compute(const TF& p, const TF& t) override { lg(cat("c", sv(p), sv(t))); return TF(Shape({1}), 1.0f); } TF gradient(const TF& p, const TF& t) override { lg(cat("g", sv(p), sv(t))); ND a = of(p), b = of(t); for (size_t i = 0; i < a.v.size(); ++i) a.v[i] = 3 * b.v[i] - a.v[i]; return mk(a); } };
struct Opt : Optimizer<float> { void optimize(const Refs& a, const Refs& b, float lr) override { lg(cat("o", lr)); } };
static ND lin(ND a, double x, double m) { for (double& z : a.v) z = (float)(z * m + x); return a; }
struct Quiet { std::streambuf* b; std::ostringstream o; Quiet() { b = std::cout.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(b); } };
static void same_log(std::vector<std::string> got, const std::vector<std::string>& want) { for (size_t i = 0; i + 1 < got.size(); ++i) { if (got[i][0] == 'c' && got[i + 1][0] == 'g') ++i; else if (got[i][0] == 'g' && got[i + 1][0] == 'c') { std::swap(got[i], got[i + 1]); ++i; } } /* loss and gradient in either order */ for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) if (i >= got.size() || i >= want.size() || got[i] != want[i]) fail("call ", i, " is ", i < got.size() ? got[i] : "(none)", " instead of ", i < want.size() ? want[i] : "(none)"); }
TEST(model, 500) {
    Quiet q; std::vector<std::string> log, want; LOG = &log; int n = R.range(0, 4), ns = R.range(0, 4), ep = R.range(0, 3); SmartDNN<float> m; std::vector<int> ids; for (int i = 0; i < n; ++i) { ids.push_back(R.range(0, 9)); if (R.coin()) m.addLayer(Tag(ids[i])); else { Tag t(ids[i]); m.addLayer(t); } } CASE("model of ", str(ids), " samples ", ns, " epochs ", ep); std::string mode = "t";
    std::vector<ND> xs, ts; std::vector<TF> xt, tt; for (int i = 0; i < ns; ++i) { VI d = dims(rk(1, 3), 20); xs.push_back(rnd(d, 0)); ts.push_back(rnd(d, 0)); xt.push_back(mk(xs[i])); tt.push_back(mk(ts[i])); }
    auto fwd = [&](ND a) { for (int id : ids) { want.push_back(cat("f", id, mode, show(a))); a = lin(a, id + 1, 2); } return a; };
    if (ns) throws("train uncompiled", [&] { m.train(xt, tt, ep); }); same_log(log, want); m.compile(Los(), Opt());
    if (R.coin()) { m.evalMode(); mode = "e"; } if (R.coin(3)) { m.trainingMode(); mode = "t"; }
    int steps = R.range(1, 3); for (int s = 0; s < steps; ++s) {
        log.clear(); want.clear(); int what = R.range(0, 3); if (what == 0 && !ns) what = 1;
        if (what == 0) { m.train(xt, tt, ep); for (int e = 0; e < ep; ++e) for (int i = 0; i < ns; ++i) { ND p = fwd(xs[i]); want.push_back(cat("c", show(p), show(ts[i]))); want.push_back(cat("g", show(p), show(ts[i]))); ND g = p; for (size_t j = 0; j < p.v.size(); ++j) g.v[j] = (float)(3 * ts[i].v[j] - p.v[j]); for (int k = n - 1; k >= 0; --k) { want.push_back(cat("b", ids[k], show(g))); g = lin(g, -0.5 * ids[k] - 1, -1); } for (int k = 0; k < n; ++k) { want.push_back(cat("u", ids[k])); want.push_back(cat("o", (float)ids[k] + 1)); } } same_log(log, want); }
        else if (what == 1) { auto r = m.predict(xt); if ((int)r.size() != ns) fail("predict gives ", r.size()); for (int i = 0; i < ns; ++i) exact(cat("prediction ", i), r[i], fwd(xs[i])); same_log(log, want); }
        else if (what == 2 && ns) { ND p = fwd(xs[0]); exact("prediction", m.predict(xt[0]), p); same_log(log, want); ND g = rnd({2}, 0); m.backward(mk(g)); for (int k = n - 1; k >= 0; --k) { want.push_back(cat("b", ids[k], show(g))); g = lin(g, -0.5 * ids[k] - 1, -1); } same_log(log, want); m.updateWeights(); for (int k = 0; k < n; ++k) { want.push_back(cat("u", ids[k])); want.push_back(cat("o", (float)ids[k] + 1)); } same_log(log, want); }
        else { auto t2 = tt; if (R.coin() || t2.empty()) t2.push_back(mk(rnd({2}))); else t2.pop_back(); throws("numbers of inputs and targets", [&] { m.train(xt, t2, ep + 1); }); same_log(log, want); }
        for (int i = 0; i < ns; ++i) { exact("input", xt[i], xs[i]); exact("target", tt[i], ts[i]); } bool more = R.coin(3); if (more) { ids.push_back(R.range(0, 9)); ++n; Tag t(ids.back()); if (R.coin()) t.setTrainingMode(R.coin()); m.addLayer(t); } if (R.coin(3) || (more && R.coin())) { m.evalMode(); mode = "e"; } else if (more || R.coin(3)) { m.trainingMode(); mode = "t"; }
    }
}
TEST(real, 25) { // library layers: one training step against layers run by hand
    Quiet q; int in = R.range(1, 4), h = R.range(1, 4), B = R.range(1, 4); FullyConnectedLayer<float> a(in, h), b(h, 2); SmartDNN<float> m; m.addLayer(a); m.addLayer(ActivationLayer<float>(Tanh<float>())); m.addLayer(b); SGDOptions<float> o; o.learningRate = 0.05f; m.compile(MSELoss<float>(), SGDOptimizer<float>(o)); ActivationLayer<float> c{Tanh<float>()}; MSELoss<float> l; SGDOptimizer<float> s(o); std::vector<TF> X, T; for (int i = 0; i < 3; ++i) { X.push_back(mk(rnd({B, in}))); T.push_back(mk(rnd({B, 2}))); } CASE("network ", in, " ", h); m.train(X, T, 2);
    for (int e = 0; e < 2; ++e) for (int i = 0; i < 3; ++i) { TF p = b.forward(c.forward(a.forward(X[i]))); TF g = l.gradient(p, T[i]); a.backward(c.backward(b.backward(g))); a.updateWeights(s); b.updateWeights(s); } for (int i = 0; i < 3; ++i) same("prediction after training", m.predict(X[i]), of(b.forward(c.forward(a.forward(X[i])))), 1e-3);
}
