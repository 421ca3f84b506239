#include "common.hpp"
static double ap(int op, double x, double y) { return op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y; }
static TF bin(int op, const TF& a, const TF& b) { return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; }
static TF& inp(int op, TF& a, const TF& b) { switch (op) { case 0: return a += b; case 1: return a -= b; case 2: return a *= b; default: return a /= b; } }
static TF bins(int op, const TF& a, float b) { return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; }
static TF sbin(int op, float b, const TF& a) { return op == 0 ? b + a : op == 1 ? b - a : op == 2 ? b * a : b / a; }
static TF& inps(int op, TF& a, float b) { switch (op) { case 0: return a += b; case 1: return a -= b; case 2: return a *= b; default: return a /= b; } }
static const char* nm[] = {"+", "-", "*", "/"};
TEST(tensors, 900) {
    VI a, b, o; if (R.coin(4)) { a = dims(rk(1, 6), 3000); b = a; } else pair_dims(a, b);
    if (R.coin(6)) { VI& c = R.coin() ? a : b; c[R.range(0, (int)c.size() - 1)] += R.range(1, 3); }
    int op = R.range(0, 3); CASE(str(a), " ", nm[op], " ", str(b));
    ND x = rnd(a), y = op == 3 ? rnd_nz(b) : rnd(b); TF t = mk(x), u = mk(y);
    if (!bcast(a, b, o)) {
        throws("operator", [&] { bin(op, t, u); }); exact("left after rejection", t, x);
        throws("in place", [&] { inp(op, t, u); }); exact("left after rejection", t, x); exact("right after rejection", u, y); return;
    }
    ND w(o); each(o, [&](const VI& q) { w.at(q) = ap(op, x.at(bidx(q, a)), y.at(bidx(q, b))); });
    same("result", bin(op, t, u), w); exact("left operand", t, x); exact("right operand", u, y);
    TF l = mk(x); if (total(o) != total(a)) { throws("in place with a larger result", [&] { inp(op, l, u); }); exact("left after rejection", l, x); exact("right operand", u, y); return; }
    TF& r = inp(op, l, u); if (&r != &l) fail("in place returns another object"); w.d = a; same("in place", l, w); exact("right operand", u, y);
}
TEST(itself, 200) {
    VI a = dims(rk(1, 5)); int op = R.range(0, 3); CASE("t ", nm[op], "= t for ", str(a)); ND x = op == 3 ? rnd_nz(a) : rnd(a); TF t = mk(x); ND w(a);
    for (size_t i = 0; i < w.v.size(); ++i) w.v[i] = ap(op, x.v[i], x.v[i]);
    same("t op t", bin(op, t, t), w); exact("operand", t, x); inp(op, t, t); same("t op= t", t, w);
}
TEST(scalar, 600) {
    VI a = dims(rk(1, 6), 5000); int op = R.range(0, 3); double s = val(); if (op == 3 && s == 0) s = 0.25; CASE("scalar ", nm[op], " ", s, " with ", str(a));
    ND x = rnd(a), w(a); TF t = mk(x); for (size_t i = 0; i < w.v.size(); ++i) w.v[i] = ap(op, x.v[i], s);
    same("tensor op scalar", bins(op, t, s), w); exact("operand", t, x); TF l = mk(x); TF& r = inps(op, l, s); if (&r != &l) fail("in place returns another object"); same("in place", l, w);
    ND y = op == 3 ? rnd_nz(a) : x; TF v = mk(y); for (size_t i = 0; i < w.v.size(); ++i) w.v[i] = ap(op, s, y.v[i]);
    same("scalar op tensor", sbin(op, s, v), w); exact("operand", v, y);
}
TEST(zero, 30) { VI a = dims(rk(1, 4)); ND x = rnd(a); TF t = mk(x); CASE("divide ", str(a), " by zero"); throws("t / 0", [&] { t / 0.0f; }); throws("t /= 0", [&] { t /= 0.0f; }); throws("t / -0", [&] { t / -0.0f; }); exact("after rejection", t, x); }
TEST(unary, 200) {
    VI a = dims(rk(1, 6), 5000); CASE("unary on ", str(a)); ND x = rnd(a), w(a); TF t = mk(x);
    for (size_t i = 0; i < w.v.size(); ++i) w.v[i] = -x.v[i]; same("negation", -t, w); exact("operand", t, x);
    ND p = rnd_pos(a, 0, 9); TF u = mk(p); for (size_t i = 0; i < w.v.size(); ++i) w.v[i] = std::sqrt(p.v[i]); same("sqrt", u.sqrt(), w); exact("operand", u, p);
    for (size_t i = 0; i < w.v.size(); ++i) w.v[i] = 2 * x.v[i] * x.v[i] + 1; auto f = [](float z) { return 2 * z * z + 1; };
    same("Adv::apply", Adv::apply(t, f), w); exact("operand", t, x); TF& r = t.apply(f); if (&r != &t) fail("apply returns another object"); same("apply", t, w);
    for (size_t i = 0; i < w.v.size(); ++i) w.v[i] = 1 / (p.v[i] + 1e-12); ND rc = p; for (double& z : rc.v) z += 0.5; for (size_t i = 0; i < w.v.size(); ++i) w.v[i] = 1 / rc.v[i];
    same("reciprocal", Adv::reciprocal(mk(rc)), w, 1e-3);
    ND y = rnd(a); for (size_t i = 0; i < w.v.size(); ++i) w.v[i] = x.v[i] * 3 - y.v[i]; same("applyPair", Adv::applyPair(mk(x), mk(y), [](float m, float n) { return m * 3 - n; }), w);
}
