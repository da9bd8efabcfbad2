// Executable contract of S03: keep N best, draw N, columns to list.
#include <aslam/common/stl-helpers.h>
#include <map>
#include "common.h"
using namespace aslam::common;
struct El { int key, id; bool operator==(const El& o) const { return key == o.key && id == o.id; } bool operator<(const El& o) const { return std::tie(key, id) < std::tie(o.key, o.id); } };
struct Ptrless { bool operator()(const El& a, const El& b) const { return a.key < b.key; } };
struct Log { std::vector<El>* l; void operator()(const El& e) const { l->push_back(e); } };
static std::string show(const std::vector<El>& v) { std::ostringstream o; o << "size " << v.size() << " {"; for (size_t i = 0; i < v.size() && i < 40; ++i) o << v[i].key << ' '; o << "}"; return o.str(); }
static std::vector<El> make(size_t n, int alphabet) { std::vector<El> v; for (size_t i = 0; i < n; ++i) v.push_back(El{(int)rp::rnd(0, alphabet), (int)i}); return v; }
template <class C> void keep(std::vector<El> v, size_t N, C cmp, const char* cn) {
  rp::CASES("keep " + std::to_string(N) + " by " + cn + " of " + show(v));
  std::vector<El> orig = v, log, w = v; const size_t ret = keepOnlyNSortedElements(N, cmp, &v, Log{&log});
  const size_t want = std::min(N, orig.size());
  EXPECT(v.size() == want && ret == want, "wrong number of kept elements"); EXPECT(log.size() == orig.size() - want, "the removal action is not called once for each removed element");
  for (auto& r : log) for (auto& k : v) EXPECT(!cmp(r, k), "a kept element ranks below a removed one");
  std::vector<El> all = v; all.insert(all.end(), log.begin(), log.end()); std::sort(all.begin(), all.end()); std::sort(orig.begin(), orig.end()); EXPECT(all == orig, "kept and removed elements are not the original ones");
  keepOnlyNSortedElements(N, cmp, &w); EXPECT(w.size() == want, "wrong number of kept elements without an action");
}
static void draw(std::vector<El> in, size_t n, int variant) {
  rp::CASES("draw " + std::to_string(n) + (variant == 0 ? " fixed seed" : variant == 1 ? " random seed" : " default") + " of " + show(in));
  for (size_t i = 0; i < in.size(); ++i) in[i].id = i;
  std::vector<El> before = in, out = make(rp::rnd(0, 3), 5); if (variant < 2) drawNRandomElements(n, in, &out, variant == 0); else drawNRandomElements(n, in, &out);
  EXPECT(in == before, "drawing changes the input"); EXPECT(out.size() == std::min(n, in.size()), "wrong number of drawn elements");
  std::vector<bool> seen(in.size(), false);
  for (auto& e : out) { EXPECT(e.id >= 0 && (size_t)e.id < in.size() && in[e.id] == e, "a drawn element is not from the input"); EXPECT(!seen[e.id], "one position is drawn twice"); seen[e.id] = true; }
}
template <int D> void cols(int n) {
  rp::CASE("columns to list: %d x %d", D, n); Eigen::Matrix<double, D, Eigen::Dynamic> m(D, n); for (int j = 0; j < n; ++j) for (int i = 0; i < D; ++i) m(i, j) = 10 * j + i + 0.25; auto b = m;
  Aligned<std::vector, Eigen::Matrix<double, D, 1>> out(rp::rnd(0, 3), Eigen::Matrix<double, D, 1>::Zero()); convertEigenToStlVector<D>(m, &out);
  EXPECT(out.size() == (size_t)n, "wrong number of elements"); for (int j = 0; j < n; ++j) for (int i = 0; i < D; ++i) EXPECT(out[j](i) == b(i, j), "an element is not its column"); EXPECT(m == b, "the matrix changes");
}
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("s03"); FLAGS_minloglevel = 3;
  for (int n = 0; n <= 7; ++n) for (size_t N = 0; N <= 9; ++N) for (int k = 0; k < 12; ++k) { auto v = make(n, k % 4); keep(v, N, Ptrless(), "smaller key"); keep(v, N, [](const El& a, const El& b) { return a.key > b.key; }, "greater key"); }
  for (int n = 0; n <= 12; ++n) for (size_t N = 1; N <= 14; ++N) for (int k = 0; k < 3; ++k) draw(make(n, 3), N, k);
  for (int n = 0; n < 9; ++n) { cols<1>(n); cols<2>(n); cols<3>(n); cols<6>(n); }
  while (rp::more()) {
    auto v = make(rp::rnd(0, rp::rnd(0, 5) ? 40 : 600), rp::rnd(0, 50)); if (rp::rnd(0, 4) == 0) std::sort(v.begin(), v.end(), Ptrless()); if (rp::rnd(0, 4) == 0) std::reverse(v.begin(), v.end());
    size_t N = rp::rnd(0, v.size() + 2); if (rp::rnd(0, 20) == 0) N = SIZE_MAX - rp::rnd(0, 1);
    keep(v, N, Ptrless(), "smaller key"); keep(v, N, [](const El& a, const El& b) { return a.key > b.key; }, "greater key"); keep(v, N, [](const El& a, const El& b) { return a.key / 5 < b.key / 5; }, "key class");
    size_t M = rp::rnd(0, 20) ? rp::rnd(1, v.size() + 2) : SIZE_MAX; for (int k = 0; k < 3; ++k) draw(v, M, k); cols<3>(rp::rnd(0, 100)); cols<2>(rp::rnd(0, 100));
  }
  return rp::done();
}
