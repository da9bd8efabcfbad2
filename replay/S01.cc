// Executable contract of S01: erasing by index.
#include <aslam/common/stl-helpers.h>
#include "common.h"
using namespace aslam::common; using namespace aslam::common::stl_helpers;
typedef std::vector<size_t> Idx;
static std::string show(size_t n, const Idx& ix) { std::ostringstream o; o << "size " << n << " erase {"; for (size_t i : ix) o << i << ' '; o << "}"; return o.str(); }
static std::vector<size_t> rest(size_t n, const Idx& ix) { std::vector<bool> d(n, false); for (size_t i : ix) d[i] = true; std::vector<size_t> r; for (size_t i = 0; i < n; ++i) if (!d[i]) r.push_back(i); return r; }
static Idx pick(size_t n) {
  Idx r; unsigned mode = rp::rnd(0, 6);
  for (size_t i = 0; i < n; ++i) if (mode == 0 ? false : mode == 1 ? true : mode == 2 ? i == n - 1 : mode == 3 ? i == 0 : mode == 4 ? rp::rnd(0, 9) == 0 : rp::rnd(0, 1)) r.push_back(i);
  return r;
}
template <class V> void check_vec(size_t n, Idx ix, typename V::value_type (*mk)(size_t)) {
  V d; for (size_t i = 0; i < n; ++i) d.push_back(mk(i));
  const auto keep = rest(n, ix); Idx sh = ix; if (rp::rnd(0, 2) != 0) for (size_t i = sh.size(); i > 1; --i) std::swap(sh[i - 1], sh[rp::rnd(0, i - 1)]);
  rp::CASES("vector " + show(n, sh));
  const V before = d; const Idx sb = sh; const V out = eraseIndicesFromVector(d, sh);
  EXPECT(d == before && sh == sb, "the copying variant changed its input");
  EXPECT(out.size() == keep.size(), "wrong number of remaining elements");
  for (size_t i = 0; i < keep.size(); ++i) EXPECT(out[i] == mk(keep[i]), "wrong remaining element");
  V inplace = before; eraseIndicesFromContainer(sh, n, &inplace); EXPECT(inplace == out, "in-place erase differs from the copying variant");
}
template <class M> M fillm(int r, int c) { M m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = typename M::Scalar(1000 * i + j + 1); return m; }
template <class M> void check_mat(const char* what, M& m, const M& before, const std::vector<size_t>& keep, bool cols) {
  if (cols) { EXPECT(m.rows() == before.rows() && (size_t)m.cols() == keep.size(), "wrong matrix size"); for (size_t k = 0; k < keep.size(); ++k) for (int i = 0; i < before.rows(); ++i) EXPECT(m(i, k) == before(i, keep[k]), "wrong remaining column"); }
  else { EXPECT(m.cols() == before.cols() && (size_t)m.rows() == keep.size(), "wrong matrix size"); for (size_t k = 0; k < keep.size(); ++k) for (int j = 0; j < before.cols(); ++j) EXPECT(m(k, j) == before(keep[k], j), "wrong remaining row"); }
}
static int mki(size_t i) { return 7 * (int)i + 3; }
static std::string mks(size_t i) { return "e" + std::to_string(i) + std::string(i % 40, 'x'); }
static double mkd(size_t i) { return i * 0.5; }
template <class F> void refuse(const std::string& w, F f) { rp::CASES(w); int o = rp::outcome(f); EXPECT(o == 1, o == 0 ? "an out-of-range index is accepted" : "an out-of-range index is not refused cleanly"); }
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("s01"); FLAGS_minloglevel = 3;
  for (int k = 0; k < 6; ++k) {
    size_t n = rp::rnd(0, 5); Idx ix = pick(n); size_t bad = n + (k < 3 ? 0 : rp::rnd(0, 3)); ix.push_back(bad);
    refuse("vector " + show(n, ix), [&] { std::vector<int> v(n); eraseIndicesFromVector(v, ix); });
    refuse("vector in place " + show(n, ix), [&] { std::vector<int> v(n); eraseIndicesFromContainer(ix, n, &v); });
    refuse("columns " + show(n, ix), [&] { Eigen::Matrix2Xd m = fillm<Eigen::Matrix2Xd>(2, n); eraseIndicesFromContainer(ix, n, &m); });
    refuse("rows " + show(n, ix), [&] { Eigen::VectorXd m = fillm<Eigen::VectorXd>(n, 1); eraseIndicesFromContainer(ix, n, &m); });
    refuse("adapter " + show(n, ix), [&] { Eigen::MatrixXd m = fillm<Eigen::MatrixXd>(3, n); OneDimensionAdapter<double, kColumns> a(&m); eraseIndicesFromContainer(ix, n, &a); });
  }
  // every subset of small sizes
  for (size_t n = 0; n <= 8; ++n) for (unsigned s = 0; s < (1u << n); ++s) {
    Idx ix; for (size_t i = 0; i < n; ++i) if (s >> i & 1) ix.push_back(i);
    check_vec<std::vector<int>>(n, ix, mki); const auto keep = rest(n, ix);
    { rp::CASES("3xN columns " + show(n, ix)); auto m = fillm<Eigen::Matrix3Xd>(3, n); auto b = m; eraseIndicesFromContainer(ix, n, &m); check_mat("", m, b, keep, true); }
    { rp::CASES("Nx1 rows " + show(n, ix)); auto m = fillm<Eigen::VectorXi>(n, 1); auto b = m; eraseIndicesFromContainer(ix, n, &m); check_mat("", m, b, keep, false); }
  }
  typedef Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic> U8;
  while (rp::more()) {
    size_t n = rp::rnd(0, 3) ? rp::rnd(0, 20) : rp::rnd(0, 300); Idx ix = pick(n); const auto keep = rest(n, ix);
    check_vec<std::vector<int>>(n, ix, mki); check_vec<std::vector<std::string>>(n, ix, mks); check_vec<std::vector<double>>(n, ix, mkd);
    { rp::CASES("1xN columns " + show(n, ix)); auto m = fillm<Eigen::RowVectorXd>(1, n); auto b = m; eraseIndicesFromContainer(ix, n, &m); check_mat("", m, b, keep, true); }
    { rp::CASES("2xN columns " + show(n, ix)); auto m = fillm<Eigen::Matrix2Xd>(2, n); auto b = m; eraseIndicesFromContainer(ix, n, &m); check_mat("", m, b, keep, true); }
    { rp::CASES("Nx2 rows " + show(n, ix)); typedef Eigen::Matrix<float, Eigen::Dynamic, 2> M; auto m = fillm<M>(n, 2); auto b = m; eraseIndicesFromContainer(ix, n, &m); check_mat("", m, b, keep, false); }
    { rp::CASES("Nx1 rows " + show(n, ix)); auto m = fillm<Eigen::VectorXd>(n, 1); auto b = m; eraseIndicesFromContainer(ix, n, &m); check_mat("", m, b, keep, false); }
    int o = rp::rnd(0, 70);
    { rp::CASES("dynamic columns " + std::to_string(o) + " rows, " + show(n, ix)); U8 m = fillm<U8>(o, n), b = m; OneDimensionAdapter<unsigned char, kColumns> a(&m); eraseIndicesFromContainer(ix, n, &a); check_mat("", m, b, keep, true); EXPECT(a.matrix == &m, "the adapter lost its matrix"); }
    { rp::CASES("dynamic rows " + std::to_string(o) + " cols, " + show(n, ix)); U8 m = fillm<U8>(n, o), b = m; OneDimensionAdapter<unsigned char, kRows> a(&m); eraseIndicesFromContainer(ix, n, &a); check_mat("", m, b, keep, false); EXPECT(a.matrix == &m, "the adapter lost its matrix"); }
  }
  return rp::done();
}
