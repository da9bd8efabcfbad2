// Executable contract of S02: counting, mean, standard deviation, median.
#include <aslam/common/stl-helpers.h>
#include <deque>
#include "common.h"
using namespace aslam::common;
template <class T> std::string show(const std::vector<T>& v) { std::ostringstream o; o.precision(17); o << "n=" << v.size() << " {"; for (size_t i = 0; i < v.size() && i < 40; ++i) o << v[i] << ' '; o << "}"; return o.str(); }
static bool close(long double a, long double b, long double scale) { return std::fabs((double)(a - b)) <= 1e-9L * scale + 1e-300L; }
template <class T> void stats(const char* what, std::vector<T> v) {
  rp::CASES(std::string(what) + " " + show(v));
  long double s = 0, mag = 1; for (T x : v) { s += (long double)x; mag = std::max(mag, std::fabs((long double)x)); }
  const long double mu = s / v.size(); long double q = 0; for (T x : v) q += ((long double)x - mu) * ((long double)x - mu);
  const std::vector<T> before = v;
  EXPECT(close(mean(v.begin(), v.end()), mu, mag), "mean is not the sum over the count");
  EXPECT(close(mean(v.data(), v.data() + v.size()), mu, mag), "mean over pointers differs");
  EXPECT(v == before, "mean changes the data");
  const long double sd = std::sqrt(q / v.size()); const double g = stddev(v.begin(), v.end());
  EXPECT(std::fabs((double)(g - sd)) <= 1e-7L * mag, "standard deviation is not the population one"); EXPECT(v == before, "stddev changes the data");
  std::vector<T> so = v; std::sort(so.begin(), so.end()); const size_t n = v.size();
  const long double md = n % 2 ? (long double)so[n / 2] : ((long double)so[n / 2] + (long double)so[n / 2 - 1]) / 2;
  EXPECT(close(median(v.begin(), v.end()), md, mag), "median is not the middle of the sorted values");
  std::sort(v.begin(), v.end()); EXPECT(v == so, "median loses or invents values");
  std::deque<T> d(before.begin(), before.end()); EXPECT(close(median(d.begin(), d.end()), md, mag), "median over a deque differs");
  EXPECT(close(mean(d.begin(), d.end()), mu, mag), "mean over a deque differs");
}
static void counts(const std::vector<size_t>& n) {
  rp::CASES("count " + show(n)); size_t t = 0; std::vector<std::vector<int>> l; std::vector<std::vector<std::string>> m; for (size_t k : n) { l.emplace_back(k); m.emplace_back(k); t += k; }
  EXPECT(countNumberOfElementsInNestedList(l) == t, "count is not the sum of the inner sizes"); EXPECT(countNumberOfElementsInNestedList(m) == t, "count is not the sum of the inner sizes");
}
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("s02"); FLAGS_minloglevel = 3;
  std::vector<double> none; std::vector<int> nonei;
  rp::CASE("empty ranges");
  EXPECT(rp::refused([&] { mean(none.begin(), none.end()); }), "the mean of nothing is not refused"); EXPECT(rp::refused([&] { stddev(none.begin(), none.end()); }), "the deviation of nothing is not refused"); EXPECT(rp::refused([&] { median(none.begin(), none.end()); }), "the median of nothing is not refused");
  EXPECT(rp::refused([&] { mean(nonei.begin(), nonei.end()); }), "the mean of nothing is not refused"); EXPECT(rp::refused([&] { stddev(nonei.begin(), nonei.end()); }), "the deviation of nothing is not refused"); EXPECT(rp::refused([&] { median(nonei.begin(), nonei.end()); }), "the median of nothing is not refused");
  { std::vector<double> one{3.5}; double* q = one.data(); rp::CASE("empty subrange"); EXPECT(rp::refused([&] { mean(q + 1, q + 1); }), "the mean of nothing is not refused"); }
  counts({}); counts({0}); counts({0, 0, 5}); counts({1, 2, 3, 4}); counts({7, 0, 0, 300, 1});
  // all sequences over small alphabets
  for (int n = 1; n <= 6; ++n) { int N = 1; for (int i = 0; i < n; ++i) N *= 4; for (int k = 0; k < N; ++k) { std::vector<double> v; std::vector<int> w; int r = k; for (int i = 0; i < n; ++i) { v.push_back(r % 4 - 1.25); w.push_back(r % 4 - 2); r /= 4; } stats("double", v); stats("int", w); } }
  while (rp::more()) {
    size_t n = rp::rnd(0, 9) ? rp::rnd(1, 60) : rp::rnd(1, 5000); double lo = rp::rndd(-1000, 1000), w = std::pow(10, rp::rndd(-6, 4));
    std::vector<double> v; std::vector<float> f; std::vector<int> i; std::vector<unsigned char> u; std::vector<long> l; std::vector<size_t> z; int alphabet = rp::rnd(1, 30);
    for (size_t k = 0; k < n; ++k) { v.push_back(lo + rp::rndd(0, w)); f.push_back((float)rp::rndd(-1, 1)); i.push_back((int)rp::rnd(0, alphabet) - 10); u.push_back(rp::rnd(0, 255)); l.push_back((long)rp::rnd(0, 2000000000) * 1000 - 1000000); z.push_back(rp::rnd(0, 3000000000ul)); }
    stats("double", v); stats("float", f); stats("int", i); stats("uchar", u); stats("long", l); stats("size_t", z);
    std::vector<int> big; for (size_t k = 0; k < n; ++k) big.push_back((int)(2147483647 - rp::rnd(0, 1000)) * (rp::rnd(0, 1) ? 1 : -1)); stats("int near the limits", big);
    std::vector<size_t> c; for (size_t k = rp::rnd(0, 20); k > 0; --k) c.push_back(rp::rnd(0, 3) ? rp::rnd(0, 20) : 0); counts(c);
  }
  return rp::done();
}
