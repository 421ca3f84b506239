#include "layers.hpp"
TEST(flatten, 600) {
    FlattenLayer<float> L; CASE("Flatten first"); throws("backward before forward", [&] { L.backward(mk(rnd({2, 3}))); }); throws("rank 1", [&] { L.forward(mk(rnd({R.range(1, 6)}))); });
    int n = R.range(1, 4); for (int s = 0; s < n; ++s) { VI d = dims(rk(2, 6), 2000); ND x = rnd(d); int w = x.v.size() / d[0]; ND y(VI{d[0], w}, x.v); if (R.coin(3)) L.setTrainingMode(R.coin()); CASE("Flatten step ", s, " ", str(d)); TF t = mk(x); exact("forward", L.forward(t), y); exact("input", t, x); for (int m = R.range(1, 2); m > 0; --m) { ND g = rnd(y.d); TF gt = mk(g); ND e(d, g.v); exact("backward", L.backward(gt), e); exact("upstream", gt, g); } }
}
