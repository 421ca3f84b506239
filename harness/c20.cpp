#include "layers.hpp"
#include "smart_dnn/Datasets/MNistLoader.hpp"
#include <sys/stat.h>
static std::string dir() { static std::string d; if (d.empty()) { char b[] = "/tmp/dvmnistXXXXXX"; d = mkdtemp(b); atexit([] { unlink((d + "/i").c_str()); unlink((d + "/l").c_str()); rmdir(d.c_str()); }); } return d; }
static void be(std::string& s, unsigned v) { for (int k = 24; k >= 0; k -= 8) s += (char)(v >> k & 255); }
static void put(const std::string& n, const std::string& s) { std::ofstream f(dir() + n, std::ios::binary | std::ios::trunc); f.write(s.data(), s.size()); }
static std::string img(unsigned magic, int n, int r, int c, std::string& px) { std::string s; be(s, magic); be(s, n); be(s, r); be(s, c); px.clear(); for (int i = 0; i < n * r * c; ++i) px += (char)(R.coin(4) ? (R.coin() ? 255 : 26) : R.range(0, 255)); return s + px; }
static std::string lab(unsigned magic, int n, std::string& lb) { std::string s; be(s, magic); be(s, n); lb.clear(); for (int i = 0; i < n; ++i) lb += (char)R.range(0, 9); return s + lb; }
static std::pair<std::vector<TF>, std::vector<TF>> load(int b, int lim) { if (lim == -1 && b == 1 && R.coin()) return MNISTLoader<float>(dir() + "/i", dir() + "/l").loadData(); if (lim == -1 && R.coin()) return MNISTLoader<float>(dir() + "/i", dir() + "/l", b).loadData(); return MNISTLoader<float>(dir() + "/i", dir() + "/l", b, lim).loadData(); }
TEST(files, 600) {
    int n = R.range(1, 12), r = R.range(1, 6), c = R.range(1, 6), b = R.range(1, 6); if (R.coin(20)) { n = R.range(250, 300); r = c = 2; b = R.range(1, 300); } if (R.coin(20)) { n = R.range(1, 3); r = dim(40); c = dim(40); if (R.coin(4)) (R.coin() ? r : c) = R.range(256, 700); } if (R.coin(80)) { n = R.range(65536, 70000); r = c = 1; b = R.range(300, 70000); } int lim = R.coin() ? -1 : R.range(1, n); std::string px, lb; put("/i", img(2051, n, r, c, px)); put("/l", lab(2049, n, lb)); CASE("MNIST ", n, " images ", r, "x", c, " batch ", b, " limit ", lim); int m = lim == -1 ? n : lim; std::unique_ptr<MNISTLoader<float>> kept; if (R.coin(4)) kept = std::make_unique<MNISTLoader<float>>(dir() + "/i", dir() + "/l", b, lim); for (int go = kept ? R.range(1, 3) : 1; go > 0; --go) { auto p = kept ? kept->loadData() : load(b, lim); if (kept && R.coin()) p = kept->loadData();
    size_t nb = (m + b - 1) / b; if (p.first.size() != nb || p.second.size() != nb) fail(p.first.size(), " and ", p.second.size(), " batches instead of ", nb);
    for (size_t k = 0; k < nb; ++k) { int s = std::min(b, m - (int)k * b); ND x(VI{s, 1, r, c}), y(VI{s, 10}); for (int j = 0; j < s; ++j) { int g = k * b + j; for (int i = 0; i < r * c; ++i) x.v[j * r * c + i] = (float)((unsigned char)px[g * r * c + i] / 255.0f); y.at({j, (int)lb[g]}) = 1; } same(cat("images ", k), p.first[k], x, 1e-6); exact(cat("labels ", k), p.second[k], y); } }
}
TEST(reject, 400) {
    int n = R.range(1, 8), r = R.range(1, 5), c = R.range(1, 5), b = R.range(1, 5); std::string px, lb, I = img(2051, n, r, c, px), L = lab(2049, n, lb); int k = R.range(0, 11); int lim = -1;
    switch (k) { case 0: I = img(2051 ^ (1u << R.range(0, 30)), n, r, c, px); break; case 1: L = lab(2049 ^ (1u << R.range(0, 30)), n, lb); break; case 2: I.resize(R.range(0, (int)I.size() - 1)); break; case 3: L.resize(R.range(0, (int)L.size() - 1)); break; case 4: L[8 + R.range(0, n - 1)] = (char)R.range(10, 255); break; case 5: lim = n + R.range(1, 3); break; case 6: std::swap(I, L); break; case 7: I.pop_back(); break; case 8: L.pop_back(); break; case 9: I[R.range(1, 3) * 4] |= (char)128; break; case 10: L[4] |= (char)128; break; default: b = -R.range(0, 3); }
    put("/i", I); put("/l", L); CASE("MNIST defect ", k, ": ", n, " images ", r, "x", c, " batch ", b, " limit ", lim, " sizes ", I.size(), " ", L.size()); throws("load", [&] { MNISTLoader<float> m(dir() + "/i", dir() + "/l", b, lim); m.loadData(); });
    put("/i", img(2051, n, r, c, px)); put("/l", lab(2049, n, lb)); std::string miss = dir() + "/none"; throws("missing images", [&] { MNISTLoader<float>(miss, dir() + "/l", 1).loadData(); }); throws("missing labels", [&] { MNISTLoader<float>(dir() + "/i", miss, 1).loadData(); });
}
