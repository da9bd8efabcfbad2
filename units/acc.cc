// Entry points for the sample accumulator.
#include <aslam/common/statistics/accumulator.h>
namespace vu {
template <int W> struct Acc {
  typedef statistics::Accumulator<double, double, W> A;
  static A* make() { return new A; }
  static void add(A* a, double x) { a->Add(x); }
  static int count(const A& a) { return a.total_samples(); }
  static double sum(const A& a) { return a.sum(); }
  static double mean(const A& a) { return a.Mean(); }
  static double rolling(const A& a) { return a.RollingMean(); }
  static double last(const A& a) { return a.GetMostRecent(); }
  static double max(const A& a) { return a.max(); }
  static double min(const A& a) { return a.min(); }
  static double variance(const A& a) { return a.LazyVariance(); }
  static double deviation(const A& a) { return a.StandardDeviation(); }
  static const std::vector<double>& samples(const A& a) { return a.GetSamples(); }
};
template struct Acc<1>; template struct Acc<2>; template struct Acc<7>; template struct Acc<100>; template struct Acc<statistics::kInfiniteWindowSize>;
}
