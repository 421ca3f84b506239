#include "common.hpp"
TEST(copy, 300) {
    VI d = dims(rk(1, 6), 3000), e = dims(rk(1, 6), 3000); ND x = rnd(d), y = rnd(e); TF t = mk(x); CASE("copy ", str(d), " over ", str(e));
    TF c(t); exact("copy", c, x); TF a = mk(y); a = t; exact("assigned", a, x); const TF& rt = t; a = rt; exact("assigned", a, x);
    TF* pa = &a; a = *pa; exact("self-assigned", a, x);
    c.getData().data()[0] += 1; c.at(VI(d.size(), 0)) += 3; exact("source after writing the copy", t, x); exact("assigned after writing the copy", a, x); a[a.getShape().size() - 1] += 2; exact("source after writing the assigned", t, x);
    t.getData().data()[0] += 5; ND cx = of(c); cx.v[0] -= 4; if (x.v.size() > 1) { for (size_t i = 0; i < x.v.size(); ++i) if (std::fabs(cx.v[i] - x.v[i]) > 1e-5) fail("copy changed with its source"); }
    TF s = mk(x); TF mv(std::move(s)); exact("moved", mv, x); s = mk(y); exact("moved-from reassigned", s, y); TF ma = mk(y); TF s2 = mk(x); ma = std::move(s2); exact("move-assigned", ma, x); s2 = mk(y); exact("moved-from reassigned", s2, y);
    TF z = mk(x); TF zz(std::move(z)); shape_ok("moved-from", z.getShape()); { TF w(z); (void)w; } z = zz; exact("moved-from reassigned", z, x); 
    TensorData<float, CPUDevice> td(t.getData()); TF f(td); exact("from data", f, of(t)); td.data()[0] += 9; f.getData().data()[0] -= 1; TF g(std::move(td)); 
    Shape se(e); TensorData<float, CPUDevice> ua(se); ua = t.getData(); same("data assigned", of(ua), of(t), 0);
}
TEST(values, 200) {
    VI d = dims(rk(1, 6), 500); ND x = rnd(d); std::vector<float> v(x.v.begin(), x.v.end()); CASE("values in ", str(d));
    exact("vector", TF(Shape(d), v), x); { std::vector<float> w = v; exact("moved vector", TF(Shape(d), std::move(w)), x); } exact("array", TF(Shape(d), v.data()), x);
    exact("list", TF(Shape({2, 3}), {1, 2, 3, 4, 5, 6}), ND(VI{2, 3}, VD{1, 2, 3, 4, 5, 6}));
    auto w = v; w.push_back(1); throws("too many", [&] { TF t(Shape(d), w); }); w.pop_back(); w.pop_back(); throws("too few", [&] { TF t(Shape(d), w); }); throws("too few moved", [&] { auto u = w; TF t(Shape(d), std::move(u)); });
    throws("list too short", [&] { TF t(Shape({2, 3}), {1, 2, 3, 4, 5}); }); throws("list too long", [&] { TF t(Shape({2, 3}), {1, 2, 3, 4, 5, 6, 7}); });
}
TEST(reshape, 300) {
    VI d = dims(rk(1, 6), 3000); size_t n = total(d), rest = n; VI e; int r = R.range(1, 6); for (int i = 0; i + 1 < r; ++i) { VI dv; for (size_t k = 1; k <= rest; ++k) if (rest % k == 0) dv.push_back(k); int z = R.pick(dv); e.push_back(z); rest /= z; } e.push_back(rest);
    for (size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[R.range(0, i - 1)]);
    ND x = rnd(d), w(e, x.v); CASE("reshape ", str(d), " to ", str(e)); TF t = mk(x); same("Adv::reshape", Adv::reshape(t, Shape(e)), w, 0); exact("source", t, x); t.reshape(e); exact("reshape", t, w); TF u = mk(x); u.reshape(Shape(e)); exact("reshape", u, w);
    VI b = e; b[R.range(0, (int)b.size() - 1)] += R.range(1, 2); CASE("reshape ", str(e), " to ", str(b)); throws("count", [&] { t.reshape(b); }); exact("after rejection", t, w); throws("count", [&] { t.reshape(Shape(b)); }); exact("after rejection", t, w); throws("count", [&] { Adv::reshape(t, Shape(b)); }); exact("after rejection", t, w);
}
TEST(transpose, 500) {
    VI d = dims(rk(1, 6), 3000); ND x = rnd(d); TF t = mk(x); int a = R.range(0, (int)d.size() - 1), b = R.range(0, (int)d.size() - 1); VI e = d; std::swap(e[a], e[b]); ND w(e); each(d, [&](VI q) { double v = x.at(q); std::swap(q[a], q[b]); w.at(q) = v; });
    CASE("transpose ", str(d), " ", a, " ", b); exact("transpose", Adv::transpose(t, a, b), w); exact("source", t, x); throws("dimension", [&] { Adv::transpose(t, d.size() + R.range(0, 2), 0); }); throws("dimension", [&] { Adv::transpose(t, 0, d.size()); });
}
TEST(slice, 500) {
    VI d = dims(rk(2, 6), 3000); ND x = rnd(d); TF t = mk(x); int k = R.range(0, (int)d.size() - 1), i = R.range(0, d[k] - 1); VI e = d; e.erase(e.begin() + k); ND w(e);
    each(e, [&](const VI& q) { VI p = q; p.insert(p.begin() + k, i); w.at(q) = x.at(p); }); CASE("slice ", str(d), " dimension ", k, " at ", i); exact("slice", t.slice(k, i), w); exact("source", t, x);
    throws("index", [&] { t.slice(k, d[k] + R.range(0, 1)); }); throws("index", [&] { t.slice(k, -R.range(1, 2)); }); throws("dimension", [&] { t.slice(d.size(), 0); }); throws("dimension", [&] { t.slice(-1, 0); });
    exact("source", t, x);
}
TEST(equal, 300) {
    VI d = dims(rk(1, 5), 2000); ND x = rnd(d); TF t = mk(x), u = mk(x); CASE("compare ", str(d)); if (!(t == u) || (t != u)) fail("equal tensors differ"); ND y = x; y.v[R.range(0, (int)y.v.size() - 1)] += 1; TF v = mk(y); if (t == v || !(t != v)) fail("different tensors equal");
    VI e = d; if (R.coin()) e.push_back(1); else e.insert(e.begin(), 1); ND z(e, x.v); TF s = mk(z); if (t == s || !(t != s)) fail("different shapes equal");
    VI g = d; g[R.range(0, (int)g.size() - 1)]++; ND lg(g, 0), sm(d, 0); TF a = mk(lg), b = mk(sm); if (a == b || b == a) fail("different sizes equal");
}
