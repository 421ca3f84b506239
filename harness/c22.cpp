#include "layers.hpp"
#include "smart_dnn/Datasets/SampleGenerator.hpp"
static void pair_ok(double x, double y, double noise) { if (!(x >= 0 && x <= 100)) fail("input ", x); double e = y - 2 * x - 3; if (std::fabs(e) > 9 * noise + 1e-3) fail("target ", y, " for input ", x, " with noise ", noise); }
static double noise() { switch (R.range(0, 2)) { case 0: return 1e-6; case 1: return R.real(0.01, 0.2); default: return 1; } }
TEST(linear, 150) { int n = R.coin(10) ? 0 : R.range(1, 60); if (R.coin(30)) n = R.range(200, 600); double z = noise(); CASE("generateLinearDataset ", n, " ", z); auto p = z == 1 && R.coin() ? generateLinearDataset(n) : generateLinearDataset(n, z); if ((int)p.first.size() != n || (int)p.second.size() != n) fail(p.first.size(), " inputs and ", p.second.size(), " targets"); double s = 0, m = 0; for (int i = 0; i < n; ++i) { ND a = of(p.first[i]), b = of(p.second[i]); if (a.v.size() != 1 || b.v.size() != 1) fail("sample ", i, " is not a single value"); pair_ok(a.v[0], b.v[0], z); double e = b.v[0] - 2 * a.v[0] - 3; s += e * e; m += a.v[0]; } if (n >= 200) { if (z > 0.05) { double v = s / n / z / z; if (v < 0.5 || v > 1.7) fail("noise variance ratio ", v); } if (m / n < 35 || m / n > 65) fail("mean input ", m / n); } bool eq = n > 5; for (int i = 1; i < n; ++i) if (of(p.first[i]).v != of(p.first[0]).v) eq = false; if (eq) fail("all inputs equal"); }
TEST(batched, 250) { int n = R.coin(10) ? 0 : R.range(1, 70), b = dim(12); if (R.coin(10)) b = n + R.range(1, 3); double z = noise(); CASE("generateBatchedLinearDataset ", n, " ", b, " ", z); auto p = generateBatchedLinearDataset(n, b, z); size_t nb = (n + b - 1) / b; if (p.first.size() != nb || p.second.size() != nb) fail(p.first.size(), " and ", p.second.size(), " batches instead of ", nb); int left = n; for (size_t k = 0; k < nb; ++k) { int s = std::min(b, left); left -= s; shape_ok("batch", p.first[k].getShape()); ND x = of(p.first[k]), y = of(p.second[k]); same_dims("inputs", x.d, {s, 1}); same_dims("targets", y.d, {s, 1}); for (int i = 0; i < s; ++i) pair_ok(x.v[i], y.v[i], z); } if (left) fail(left, " samples missing"); }
