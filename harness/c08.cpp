#include "common.hpp"
TEST(view, 1500) {
    VI d = dims(rk(1, 5), 3000, 7); ND x = rnd(d); TF t = mk(x); int r = d.size(); std::vector<std::pair<int, int>> s(r); VI st(r), lo(r), o(r); bool ok = true; std::string c;
    for (int i = 0; i < r; ++i) {
        int a = R.coin(3) ? 0 : R.range(-d[i], d[i] - 1), b = R.coin(3) ? d[i] : R.range(-d[i], d[i] + 2); if (R.coin(8)) a = -d[i] - R.range(1, 3); if (R.coin(12)) b = -d[i] - R.range(1, 2 * d[i]); if (R.coin(40)) a = R.coin() ? -2147483647 - 1 : d[i] + R.range(0, 3); if (R.coin(40)) b = R.coin() ? -2147483647 - 1 : 2147483647;
        st[i] = R.coin(12) ? R.range(-2, 0) : R.coin(15) ? 2147483647 - R.range(0, 2) : R.range(1, 4); s[i] = {a, b};
        int l = a < 0 ? a + d[i] : a, h = b < 0 ? b + d[i] : b; l = std::max(0, l); h = std::min(h, d[i]);
        lo[i] = l; if (st[i] <= 0 || h <= l) { ok = false; o[i] = 0; } else o[i] = (h - l - 1) / st[i] + 1; c += cat(" [", a, ",", b, ")/", st[i]);
    }
    CASE("slices", c, " of ", str(d));
    if (!ok) { throws("view", [&] { SliceView<float> v(t.getData(), s, st); }); exact("source", t, x); return; }
    SliceView<float> v(t.getData(), s, st); same_dims("view", dims_of(v.shape()), o); shape_ok("view", v.shape()); VI q(r, 0); size_t n = 0, want = total(o);
    const SliceView<float>& cv = v;
    auto src = [&](const VI& q) { VI p(r); for (int i = 0; i < r; ++i) p[i] = lo[i] + q[i] * st[i]; return p; };
    for (auto it = v.begin(); it != v.end(); ++it) { if (n >= want) fail("iteration goes on"); float e = x.at(src(q)); if (cv[q] != e) fail("element ", str(q), " is ", cv[q], " instead of ", e); if (*it != e) fail("iteration at ", str(q)); ++n; next_index(q, o); }
    if (n != want) fail("iteration visits ", n, " of ", want);
    exact("source", t, x);
    for (int k = 0; k < 3; ++k) { for (int i = 0; i < r; ++i) q[i] = R.range(0, o[i] - 1); float z = R.range(-50, 50) + 0.5f; cv.set(q, z); x.at(src(q)) = z; exact("source after a write", t, x); if (cv[q] != z) fail("read after a write"); }
}

TEST(reject, 100) {
    VI d = dims(rk(1, 4)); TF t = mk(rnd(d)); int r = d.size(); std::vector<std::pair<int, int>> s; VI st; for (int i = 0; i < r; ++i) { s.push_back({0, d[i]}); st.push_back(1); } CASE("bad lists for ", str(d));
    auto s2 = s; s2.push_back({0, 1}); auto t2 = st; t2.push_back(1); throws("long ranges", [&] { SliceView<float> v(t.getData(), s2, st); }); throws("long steps", [&] { SliceView<float> v(t.getData(), s, t2); }); throws("long both", [&] { SliceView<float> v(t.getData(), s2, t2); });
    s2 = s; s2.pop_back(); t2 = st; t2.pop_back(); throws("short ranges", [&] { SliceView<float> v(t.getData(), s2, st); }); throws("short steps", [&] { SliceView<float> v(t.getData(), s, t2); }); throws("short both", [&] { SliceView<float> v(t.getData(), s2, t2); });
    for (int i = 0; i < r; ++i) { auto s3 = s; int a = R.range(0, d[i]); s3[i] = {a, R.range(0, a)}; if (a == 0) s3[i] = {d[i] > 1 ? d[i] - 1 : 0, 0}; if (s3[i].first >= s3[i].second) throws("empty range", [&] { SliceView<float> v(t.getData(), s3, st); }); }
    s = std::vector<std::pair<int, int>>(r); for (int i = 0; i < r; ++i) s[i] = {0, d[i]}; for (int z : {0, -1}) { auto t3 = st; t3[R.range(0, r - 1)] = z; throws("step", [&] { SliceView<float> v(t.getData(), s, t3); }); }
}
