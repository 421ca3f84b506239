#include "layers.hpp"
static void in_range(const std::string& w, const TF& t, const VI& d, double lo, double hi) { shape_ok(w, t.getShape()); ND a = of(t); same_dims(w, a.d, d); for (size_t i = 0; i < a.v.size(); ++i) if (!(a.v[i] >= (float)lo && a.v[i] <= (float)hi)) fail(w, ": element ", i, " is ", a.v[i], " outside [", lo, ",", hi, "]"); }
TEST(fill, 400) {
    VI d = dims(rk(1, 6), 3000, 8); double v = val(); CASE("fill ", str(d), " with ", v); exact("fill", TF(Shape(d), (float)v), ND(d, (float)v)); exact("shape alone", TF(Shape(d)), ND(d, 0)); exact("zeros", TF::zeros(Shape(d)), ND(d, 0)); exact("ones", TF::ones(Shape(d)), ND(d, 1)); exact("createFill", TF(TensorOperations<float, CPUDevice>::createFill(Shape(d), (float)v)), ND(d, (float)v));
    TensorData<float, CPUDevice> td(Shape(d), (float)v); same("TensorData", of(td), ND(d, (float)v), 0); td.fill(2.5f); same("TensorData::fill", of(td), ND(d, 2.5), 0);
    int n = dim(40); ND id(VI{n, n}); for (int i = 0; i < n; ++i) id.at({i, i}) = 1; CASE("identity ", n); exact("identity", TF::identity(n), id); CASE("size ", n); exact("zeros", TF::zeros(n), ND(VI{n}, 0)); exact("ones", TF::ones(n), ND(VI{n}, 1)); in_range("rand", TF::rand(n), {n}, 0, 1); in_range("randn", TF::randn(n, -1.5f, 0.25f), {n}, -1.5, 0.25);
}
TEST(rnd_tensors, 300) {
    VI d = dims(rk(1, 5), 3000, 8); double lo = R.real(-3, 3), hi = lo + (R.coin(6) ? 0 : R.real(0, 3)); RandomEngine::setSeed(R.range(0, 1 << 30)); CASE("random ", str(d), " in ", lo, " ", hi); in_range("rand", TF::rand(Shape(d)), d, 0, 1); in_range("randn", TF::randn(Shape(d), (float)lo, (float)hi), d, lo, hi); in_range("createRandom", TF(TensorOperations<float, CPUDevice>::createRandom(Shape(d), (float)lo, (float)hi)), d, lo, hi);
    int a = dim(9), b = dim(9), k = R.range(1, 3), l = R.range(1, 3); CASE("new layers ", a, " ", b, " ", k, " ", l); FullyConnectedLayer<float> F(a, b); in_range("weights", F.getWeights(), {a, b}, 0, 1); exact("biases", F.getBiases(), ND(VI{1, b}, 0)); Conv2DLayer<float> C(a, b, k, l, 1, 0, 1); in_range("kernel", C.getWeights(), {b, a, k, l}, 0, 1); exact("biases", C.getBiases(), ND(VI{b, 1}, 0)); Conv2DLayer<float> C2(a, b, k); in_range("square kernel", C2.getWeights(), {b, a, k, k}, 0, 1); exact("biases", C2.getBiases(), ND(VI{b, 1}, 0));
}
TEST(engine, 200) { for (int i = 0; i < 50; ++i) { double lo = R.real(-3, 3), hi = lo + R.real(0.1, 3); CASE("engine ", lo, " ", hi); float r = RandomEngine::getRandRange(lo, hi); if (!(r >= (float)lo && r <= (float)hi)) fail("getRandRange ", r); r = RandomEngine::getRand(); if (!(r >= 0 && r <= 1)) fail("getRand ", r); r = RandomEngine::getHeRandRange(R.range(1, 1000), lo, hi); if (!(r >= (float)lo && r <= (float)hi)) fail("getHeRandRange ", r); } }
