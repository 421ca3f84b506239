#include "common.hpp"
TEST(construct, 400) {
    VI d = dims(rk(1, 6), 2000000, 40);
    CASE("Shape", str(d));
    Shape s(d); shape_ok("constructed", s); same_dims("constructed", dims_of(s), d);
    Shape c(s); shape_ok("copy", c); same_dims("copy", dims_of(c), d);
    Shape o(dims(rk(1, 6))); o = s; shape_ok("assigned", o); same_dims("assigned", dims_of(o), d);
    Shape mv(std::move(c)); shape_ok("moved", mv); same_dims("moved", dims_of(mv), d);
    Shape ma(dims(rk(1, 4))); ma = std::move(o); shape_ok("move-assigned", ma); same_dims("move-assigned", dims_of(ma), d);
    ma = *&ma; shape_ok("self-assigned", ma); same_dims("self-assigned", dims_of(ma), d);
    for (size_t i = 0; i < d.size(); ++i) if (s[i] != d[i]) fail("subscript ", i);
    VI e = d; if (!(s == Shape(e))) fail("equal shapes differ");
    e[R.range(0, (int)e.size() - 1)] += 1; if (s == Shape(e) || !(s != Shape(e))) fail("different shapes ", str(d), str(e), " equal");
}
TEST(initializer, 20) {
    CASE("initializer list"); Shape a{2, 3, 4}; shape_ok("list", a); same_dims("list", dims_of(a), {2, 3, 4});
    Shape b{7}; shape_ok("list", b); same_dims("list", dims_of(b), {7});
    throws("zero in list", [] { Shape x{2, 0}; }); throws("negative in list", [] { Shape x{2, 3, -1}; });
}
TEST(reject, 300) {
    VI d = dims(rk(1, 6), 2000000, 40);
    d[R.range(0, (int)d.size() - 1)] = R.coin() ? 0 : -R.range(1, 5);
    if (R.coin(4)) d[R.range(0, (int)d.size() - 1)] = -1;
    CASE("Shape", str(d)); throws("bad dimension", [&] { Shape s(d); });
    throws("no dimension", [] { Shape s(VI{}); });
    VI big(R.range(3, 6), 2147483647); CASE("Shape", str(big)); throws("overflow", [&] { Shape s(big); });
    VI big2(4, 65536); CASE("Shape", str(big2)); throws("overflow", [&] { Shape s(big2); });
}
TEST(reshape, 500) {
    VI d = dims(rk(1, 6), 100000, 12); size_t n = total(d);
    VI e; size_t rest = n; int r = R.range(1, 6);
    for (int i = 0; i + 1 < r; ++i) { VI dv; for (size_t k = 1; k <= rest && k < 200; ++k) if (rest % k == 0) dv.push_back(k); int x = R.pick(dv); e.push_back(x); rest /= x; }
    e.push_back(rest);
    for (size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[R.range(0, i - 1)]);
    CASE("reshape ", str(d), " to ", str(e));
    Shape s(d); s.reshape(e); shape_ok("reshaped", s); same_dims("reshaped", dims_of(s), e);
    Shape s2(d); s2.reshape(Shape(e)); shape_ok("reshaped", s2); same_dims("reshaped", dims_of(s2), e);
    VI f = e; f[R.range(0, (int)f.size() - 1)] += R.range(1, 3);
    if (R.coin(4)) f = dims(rk(1, 5), 100000, 12);
    if (total(f) != n) {
        CASE("reshape ", str(d), " to ", str(f)); Shape t(d); throws("other product", [&] { t.reshape(f); }); shape_ok("after rejected reshape", t); same_dims("after rejected reshape", dims_of(t), d);
        throws("other product", [&] { t.reshape(Shape(f)); }); same_dims("after rejected reshape", dims_of(t), d);
    }
    // products that agree only because of sign or of a zero
    VI g = e; if (g.size() >= 2) { g[0] = -g[0]; g[1] = -g[1]; } else g[0] = -g[0];
    CASE("reshape ", str(d), " to ", str(g)); Shape t(d); throws("negative", [&] { t.reshape(g); }); shape_ok("after rejected reshape", t); same_dims("after rejected reshape", dims_of(t), d);
    throws("empty", [&] { t.reshape(VI{}); }); shape_ok("after rejected reshape", t); same_dims("after rejected reshape", dims_of(t), d);
    // a product that wraps around to the size
    VI w(e); w.insert(w.begin(), {65536, 65536, 65536, 65536}); CASE("reshape ", str(d), " to ", str(w)); throws("wrapping product", [&] { t.reshape(w); }); same_dims("after rejected reshape", dims_of(t), d);
}
TEST(mutate, 200) {
    VI d = dims(rk(1, 5)), e = dims(rk(1, 5));
    CASE("sequence ", str(d), " ", str(e));
    Shape a(d), b(e); a = b; b = Shape(d); shape_ok("a", a); shape_ok("b", b); same_dims("a", dims_of(a), e); same_dims("b", dims_of(b), d);
    std::swap(a, b); shape_ok("a", a); shape_ok("b", b); same_dims("a", dims_of(a), d); same_dims("b", dims_of(b), e);
    std::vector<Shape> v; for (int i = 0; i < 5; ++i) v.push_back(Shape(d)); for (auto& s : v) { shape_ok("in a vector", s); same_dims("in a vector", dims_of(s), d); }
}
