// Executable contract of B02: target observations.
#include <aslam/calibration/target-observation.h>
#include "common.h"
using namespace aslam::calibration;
struct T : TargetBase { T(size_t r, size_t c, const Eigen::Matrix3Xd& p) : TargetBase(r, c, p) {} };
static void refuse(const std::string& w, std::function<void()> f) { rp::CASES(w); int o = rp::outcome(f); EXPECT(o == 1, o == 0 ? "accepted although it must be refused" : "not refused cleanly"); }
static std::shared_ptr<T> make(size_t R, size_t C) { Eigen::Matrix3Xd P(3, R * C); for (int i = 0; i < P.size(); ++i) P(i) = i * 0.5 - 3; return std::make_shared<T>(R, C, P); }
static std::vector<int> some_ids(size_t n) {
  std::vector<int> a(n); for (size_t i = 0; i < n; ++i) a[i] = i;
  unsigned mode = rp::rnd(0, 5); size_t m = mode == 0 ? n : mode == 1 ? 0 : mode == 2 ? 1 : rp::rnd(0, n);
  if (mode != 3) for (size_t i = n; i > 1; --i) std::swap(a[i - 1], a[rp::rnd(0, i - 1)]);
  if (mode == 4) std::reverse(a.begin(), a.end());
  a.erase(a.begin(), a.begin() + (n - m)); return a;
}
static void check(size_t R, size_t C, const std::vector<int>& ids) {
  std::ostringstream o; o << "target " << R << "x" << C << " ids"; for (int i : ids) o << ' ' << i; rp::CASES(o.str());
  auto t = make(R, C); const size_t n = ids.size(); Eigen::VectorXi v(n); Eigen::Matrix2Xd im(2, n);
  for (size_t k = 0; k < n; ++k) { v(k) = ids[k]; im.col(k) << 100.0 * ids[k] + 0.25, -3.0 * k + 0.5; }
  TargetObservation ob(t, 480, 752, v, im); const TargetObservation& c = ob;
  EXPECT(ob.getImageHeight() == 480 && ob.getImageWidth() == 752, "image size reported wrong"); EXPECT(ob.getTarget() == t && c.getTarget() == t, "another target is returned");
  EXPECT(c.numObservedCorners() == n && c.getObservedCornerIds() == v && c.getObservedCorners() == im, "the stored corners differ from those given");
  EXPECT(c.allCornersObservered() == (n == R * C), "completeness reported wrong");
  std::vector<int> at(R * C, -1); for (size_t k = n; k-- > 0;) at[ids[k]] = k;
  for (size_t i = 0; i < R * C; ++i) {
    EXPECT(ob.observedCornerId(i) == (at[i] >= 0), "presence of a corner reported wrong");
    Eigen::Vector2d q(-1e9, 1e9); bool r = c.getObservedCornerById(i, &q);
    EXPECT(r == (at[i] >= 0), at[i] >= 0 ? "an observed corner is reported absent" : "an unobserved corner is reported present");
    if (r) EXPECT(q == im.col(at[i]), "the image point of another corner is returned");
  }
  Eigen::Matrix3Xd tp = c.getCorrespondingTargetPoints(); EXPECT((size_t)tp.cols() == n, "wrong number of target points");
  for (size_t k = 0; k < n; ++k) { EXPECT(c.getObservedCorner(k) == im.col(k), "wrong corner by position"); EXPECT(c.getObservedCornerId(k) == (size_t)ids[k], "wrong id by position"); EXPECT(tp.col(k) == t->points().col(ids[k]), "a target point is paired with another id"); }
}
static void refusals(size_t R, size_t C, size_t m) {
  auto t = make(R, C); std::vector<int> ids(R * C); for (size_t i = 0; i < ids.size(); ++i) ids[i] = ids.size() - 1 - i; ids.resize(m);
  Eigen::VectorXi v(m); Eigen::Matrix2Xd im(2, m); for (size_t k = 0; k < m; ++k) { v(k) = ids[k]; im.col(k) << k, -double(k); }
  TargetObservation ob(t, 1, 1, v, im); Eigen::Vector2d q; std::string s = "target " + std::to_string(R * C) + " observed " + std::to_string(m) + " ";
  for (size_t id : {R * C, R * C + 1, size_t(0x7fffffff)}) { std::string k = "id " + std::to_string(id); refuse(s + "lookup of " + k, [&] { ob.getObservedCornerById(int(id), &q); }); refuse(s + "presence of " + k, [&] { ob.observedCornerId(id); }); }
  refuse(s + "lookup of -1", [&] { ob.getObservedCornerById(-1, &q); }); refuse(s + "presence of 2^64-1", [&] { ob.observedCornerId(~size_t(0)); });
  refuse(s + "corner past the end", [&] { ob.getObservedCorner(m); }); refuse(s + "id past the end", [&] { ob.getObservedCornerId(int(m)); });
  if (m) refuse(s + "corner count mismatch", [&] { TargetObservation x(t, 1, 1, v, Eigen::Matrix2Xd::Zero(2, m - 1)); });
  refuse(s + "null target", [&] { TargetObservation x(nullptr, 1, 1, v, im); });
  { Eigen::VectorXi w = v; if (m) { w(m - 1) = R * C; TargetObservation x(t, 1, 1, w, im); refuse(s + "target point of an id outside", [&] { x.getCorrespondingTargetPoints(); }); } }
}
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("b02"); FLAGS_minloglevel = 3;
  refusals(2, 3, 6); refusals(2, 3, 2); refusals(3, 3, 0);
  for (size_t n = 1; n <= 6; ++n) for (unsigned s = 0; s < (1u << n); ++s) { std::vector<int> ids; for (size_t i = 0; i < n; ++i) if (s >> i & 1) ids.push_back(i); check(1, n, ids); std::reverse(ids.begin(), ids.end()); check(n, 1, ids); }
  while (rp::more()) { size_t R = rp::rnd(1, 9), C = rp::rnd(1, 9); check(R, C, some_ids(R * C)); }
  rp::done();
}
