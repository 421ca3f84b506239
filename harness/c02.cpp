#include "common.hpp"
TEST(access, 300) {
    VI d = dims(rk(1, 6), 3000); CASE("access in ", str(d));
    ND a(d); for (size_t i = 0; i < a.v.size(); ++i) a.v[i] = i; TF t = mk(a); const TF& ct = t; auto& td = t.getData(); const auto& ctd = td;
    size_t p = 0;
    each(d, [&](const VI& q) {
        if (t.at(q) != (float)p || ct.at(q) != (float)p || td.at(q) != (float)p || ctd.at(q) != (float)p || &t.at(q) != td.data() + p || t[p] != (float)p || ct[p] != (float)p) fail("index ", str(q), " of ", str(d), " is not position ", p);
        if (computeFlatIndex(t.getShape(), q) != (int)p) fail("computeFlatIndex ", str(q), " of ", str(d));
        ++p;
    });
}
TEST(reject, 600) {
    VI d = dims(rk(1, 6), 3000); TF t = mk(rnd(d)); const TF& ct = t; ND b = of(t);
    VI q(d.size()); for (size_t i = 0; i < d.size(); ++i) q[i] = R.range(0, d[i] - 1);
    int k = R.range(0, (int)d.size() - 1);
    switch (R.range(0, 5)) {
        case 0: q[k] = d[k] + (R.coin() ? 0 : R.range(0, 9)); break;
        case 1: q[k] = -R.range(1, 4); break;
        case 2: q.push_back(0); break;
        case 3: q.pop_back(); break;
        case 4: q[k] = d[k]; break;
        case 5: q[k] = d[k] + 1; if (k > 0 && q[k - 1] > 0) q[k - 1]--; break;
    }
    CASE("at ", str(q), " of ", str(d));
    throws("at", [&] { t.at(q) = 5; }); throws("const at", [&] { (void)ct.at(q); }); throws("TensorData::at", [&] { (void)t.getData().at(q); });
    throws("const TensorData::at", [&] { (void)ct.getData().at(q); });
    throws("computeFlatIndex", [&] { (void)computeFlatIndex(t.getShape(), q); }); exact("after", t, b);
}
TEST(write, 300) {
    VI d = dims(rk(1, 6), 2000); ND a = rnd(d); TF t = mk(a); VI q(d.size());
    for (int n = 0; n < 5; ++n) {
        for (size_t i = 0; i < d.size(); ++i) q[i] = R.range(0, d[i] - 1);
        CASE("write ", str(q), " of ", str(d)); double x = R.range(-99, 99) + 0.5; a.at(q) = x;
        if (n % 2) t.at(q) = x; else t.getData().at(q) = x;
        exact("after a write", t, a);
    }
}
