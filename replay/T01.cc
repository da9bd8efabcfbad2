#include "common.h"
#include <limits>
#include <cmath>
#include <aslam/common/time.h>
using namespace rp; namespace T = aslam::time;
static std::string spec(int64_t v) {
  std::string s; char b[32]; uint64_t x = (uint64_t)v; int k = 31; b[k] = 0; do { b[--k] = '0' + x % 10; x /= 10; } while (x); s = b + k;
  return s.size() < 10 ? s + "ns" : s.substr(0, s.size() - 9) + "s " + s.substr(s.size() - 9) + "ns";
}
static void ints(int64_t v) {
  CASE("value %lld", (long long)v);
  auto fit = [&](int64_t k) { __int128 p = (__int128)v * k; return p >= INT64_MIN && p <= INT64_MAX; };
  if (fit(1000000000)) EXPECT(T::seconds(v) == v * 1000000000ll, "seconds");
  if (fit(1000000)) EXPECT(T::milliseconds(v) == v * 1000000ll, "milliseconds");
  if (fit(1000)) EXPECT(T::microseconds(v) == v * 1000ll, "microseconds");
  EXPECT(T::nanoseconds(v) == v, "nanoseconds");
  auto near = [](double a, long double b) { return std::fabs((long double)a - b) <= 1e-14L * std::fabs(b); };
  EXPECT(near(T::to_seconds(v), (long double)v / 1e9L), "to_seconds"); EXPECT(near(T::nanoSecondsToSeconds(v), (long double)v / 1e9L), "nanoSecondsToSeconds");
  EXPECT(near(T::to_milliseconds(v), (long double)v / 1e6L), "to_milliseconds"); EXPECT(near(T::to_microseconds(v), (long double)v / 1e3L), "to_microseconds");
  EXPECT(T::isValidTime(v) == (v != T::getInvalidTime()), "exactly the sentinel is invalid");
  EXPECT(T::isValidTime(v) == (v != std::numeric_limits<int64_t>::min()), "the sentinel is the smallest 64-bit value");
  if (v >= 0) EXPECT(T::timeNanosecondsToString(v) == spec(v), "printed form " + T::timeNanosecondsToString(v));
}
static void dbl(double v) {
  CASE("floating-point value %.17g", v);
  auto chk = [&](int64_t r, double k, const char* n) {
    double p = v * k; if (!(std::fabs(p) < 9e18)) return;
    // exact real product truncated, one unit slack only where rounding of the product can matter
    long double e = (long double)v * (long double)k; int64_t t = (int64_t)truncl(e); bool frac = std::fabs((double)(e - roundl(e))) > std::fabs(p) * 4e-16;
    if (frac) { EXPECT(r == t, n); } else EXPECT(std::fabs((long double)r - e) <= 1 + std::fabs(p) * 4e-16, n);
  };
  chk(T::from_seconds(v), 1e9, "from_seconds"); chk(T::secondsToNanoSeconds(v), 1e9, "secondsToNanoSeconds"); chk(T::from_milliseconds(v), 1e6, "from_milliseconds"); chk(T::from_microseconds(v), 1e3, "from_microseconds");
}
int main(int c, char** a) {
  init(c, a);
  CASE("sentinel"); EXPECT(T::getInvalidTime() == std::numeric_limits<int64_t>::min(), "sentinel"); EXPECT(!T::isValidTime(T::getInvalidTime()), "sentinel invalid");
  int64_t p = 1;
  std::vector<int64_t> sp = {0, INT64_MAX, INT64_MIN, INT64_MIN + 1, INT64_MAX - 1, (1ll << 53), (1ll << 31), (1ll << 32), -(1ll << 31)};
  for (int i = 0; i < 19; ++i) { for (int d = -2; d <= 2; ++d) for (int s : {1, -1, 2, 5, -7}) sp.push_back((int64_t)((uint64_t)p * (uint64_t)s + d)); if (i < 18) p *= 10; }
  for (int i = 0; i < 63; ++i) for (int d = -1; d <= 1; ++d) { sp.push_back((1ll << i) + d); sp.push_back(-(1ll << i) + d); }
  for (auto v : sp) { ints(v); dbl((double)v); for (double k : {1e9, 1e6, 1e3}) { dbl((double)v / k); dbl(((double)(v % 1000000000) + 0.5) / k); } }
  for (int i = 0; i < 3000000 && more(); ++i) {
    int64_t v = (int64_t)(rnd() >> rnd(0, 63)); if (rnd(0, 1)) v = -v; if (rnd(0, 3) == 0) v = v / 1000000000 * 1000000000; ints(v); ints(v % 10000000000ll);
    dbl(rndd(-1e10, 1e10) * std::pow(10, -(double)rnd(0, 12)));
  }
  return done();
}
