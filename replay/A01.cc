// Executable contract of A01: accumulator statistics against their definitions over the whole history.
#include <aslam/common/statistics/accumulator.h>
#include <glog/logging.h>
#include <cmath>
#include "common.h"
typedef long double ld;
template <int W> static void check(const statistics::Accumulator<double, double, W>& a, const std::vector<double>& h, double scale) {
  const size_t N = h.size(), L = std::min<size_t>(N, W); const double tol = 1e-9 * scale * (N + 1); ld s = 0, w = 0, v = 0; double mx = -INFINITY, mn = INFINITY;
  for (size_t i = 0; i < N; ++i) { s += h[i]; if (i >= N - L) w += h[i]; mx = std::max(mx, h[i]); mn = std::min(mn, h[i]); } const ld m = L ? w / L : 0; for (size_t i = N - L; i < N; ++i) v += (h[i] - m) * (h[i] - m); v = L < 2 ? 0 : v / (L - 1);
  EXPECT(a.total_samples() == (int)N, "wrong number of samples"); EXPECT(std::abs(a.sum() - (double)s) <= tol, "wrong sum"); EXPECT(std::abs(a.Mean() - (double)(N ? s / N : 0)) <= tol, "wrong mean"); EXPECT(std::abs(a.RollingMean() - (double)m) <= tol, "wrong mean over the window");
  EXPECT(std::abs(a.LazyVariance() - (double)v) <= tol * scale, "wrong variance over the window"); EXPECT(std::abs(a.StandardDeviation() * a.StandardDeviation() - a.LazyVariance()) <= tol * scale, "the deviation is not the root of the variance");
  if (N) { EXPECT(a.max() == mx, "wrong maximum"); EXPECT(a.min() == mn, "wrong minimum"); EXPECT(a.GetMostRecent() == h.back(), "wrong last sample"); }
  std::vector<double> k(a.GetSamples()), e(h.end() - L, h.end()); std::sort(k.begin(), k.end()); std::sort(e.begin(), e.end()); EXPECT(k == e, "the kept samples are not the most recent ones");
}
template <int W> static void history(size_t n, int kind) {
  rp::CASES("window " + std::to_string(W) + ", " + std::to_string(n) + " samples of kind " + std::to_string(kind)); statistics::Accumulator<double, double, W> a; std::vector<double> h; check(a, h, 1); const double scale = kind == 3 ? 1e3 : 1e1;
  for (size_t i = 0; i < n; ++i) {
    double x; switch (kind) { case 0: x = rp::rndi(-5, 5); break; case 1: x = -double(i % 7) - 1; break; case 2: x = i % 9 + 1.0; break; case 3: x = rp::rndd(-900, 900); break; case 4: x = i < n / 2 ? 8 : -8; break; default: x = 0; }
    h.push_back(x); a.Add(x); if (n < 60 || i + 3 > n || rp::rnd(0, 20) == 0) check(a, h, scale);
  }
}
template <int W> static void some() { for (int k = 0; k < 6; ++k) for (size_t n : {0, 1, 2, 3, 7, 8, 15, 20}) history<W>(n, k); }
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("a01"); FLAGS_minloglevel = 3;
  some<1>(); some<2>(); some<3>(); some<7>(); some<100>(); some<statistics::kInfiniteWindowSize>(); history<100>(350, 0); history<100>(350, 3); history<100>(101, 2); history<100>(100, 1);
  while (rp::more()) { int k = rp::rnd(0, 5); size_t n = rp::rnd(0, rp::rnd(0, 4) ? 40 : 400); switch (rp::rnd(0, 6)) { case 0: history<1>(n, k); break; case 1: history<2>(n, k); break; case 2: history<3>(n, k); break; case 3: history<7>(n, k); break; case 4: history<64>(n, k); break; case 5: history<100>(n, k); break; default: history<statistics::kInfiniteWindowSize>(n, k); } }
  rp::done();
}
