#include "common.hpp"
TEST(shapes, 1500) {
    VI a, b, o; pair_dims(a, b, 100000);
    if (R.coin(3)) { VI& c = R.coin() ? a : b; int k = R.range(0, (int)c.size() - 1); c[k] = c[k] + R.range(1, 3); }
    bool ok = bcast(a, b, o); CASE(str(a), " with ", str(b)); Shape x(a), y(b);
    if (ShapeOperations::areBroadcastable(x, y) != ok) fail("areBroadcastable is ", !ok);
    if (ok) { Shape r = ShapeOperations::broadcastShapes(x, y); shape_ok("broadcastShapes", r); same_dims("broadcastShapes", dims_of(r), o); }
    else throws("broadcastShapes", [&] { ShapeOperations::broadcastShapes(x, y); });
    same_dims("first", dims_of(x), a); same_dims("second", dims_of(y), b);
}
TEST(view, 600) {
    VI a, b, o; pair_dims(a, b, 2000); if (!bcast(a, b, o)) return;
    ND v = rnd(a); TF t = mk(v); Shape so(o); CASE("view of ", str(a), " as ", str(o));
    BroadcastView<float, CPUDevice> w(t.getData(), so); same_dims("view", dims_of(w.shape()), o); shape_ok("view", w.shape());
    VI q(o.size(), 0); size_t n = 0, want = total(o);
    for (auto it = w.begin(); it != w.end(); ++it) {
        if (n >= want) fail("iteration goes on after ", want, " elements");
        float e = (float)v.at(bidx(q, a));
        if (w[q] != e) fail("element ", str(q)); if (*it != e) fail("iteration at ", str(q));
        ++n; next_index(q, o);
    }
    if (n != want) fail("iteration visits ", n, " of ", want);
}
TEST(bad_view, 300) {
    VI a, b, o; pair_dims(a, b, 2000); if (R.coin()) { int k = R.range(0, (int)b.size() - 1); b[k] += R.range(1, 3); }
    bool fits = bcast(a, b, o); if (fits && o == b) return;
    if (fits) return;       // the target smaller than the tensor is not specified
    CASE("view of ", str(a), " as ", str(b)); TF t = mk(rnd(a)); Shape sb(b);
    throws("view", [&] { BroadcastView<float, CPUDevice> w(t.getData(), sb); });
}
