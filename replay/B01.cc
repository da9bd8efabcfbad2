// Executable contract of B01: calibration target grid indexing and geometry.
#include <aslam/calibration/target-base.h>
#include <glog/logging.h>
#include "common.h"
using aslam::calibration::TargetBase;
struct T : TargetBase { T(size_t r, size_t c, const Eigen::Matrix3Xd& p) : TargetBase(r, c, p) {} };
static void refuse(const std::string& w, std::function<void()> f) { rp::CASES(w); int o = rp::outcome(f); EXPECT(o == 1, o == 0 ? "accepted although outside the target" : "not refused cleanly"); }
static void check(size_t R, size_t C) {
  rp::CASES("target " + std::to_string(R) + "x" + std::to_string(C));
  Eigen::Matrix3Xd P(3, R * C); for (size_t i = 0; i < R * C; ++i) P.col(i) << double(i % C) * 0.5 + 1.0, double(i / C) * -0.25 + 3.0, double(i * 7 % 11);
  const bool noise = rp::rnd(0, 1); if (noise) for (int i = 0; i < P.size(); ++i) P(i) += rp::rndd(-5, 5);
  T t(R, C, P); const Eigen::Matrix3Xd before = P;
  EXPECT(t.rows() == R && t.cols() == C && t.size() == R * C, "rows, columns or size reported wrong");
  EXPECT(t.points().cols() == P.cols() && t.points() == before, "the stored points differ from those given");
  for (size_t i = 0; i < R * C; ++i) {
    auto g = t.pointToGridCoordinates(i);
    EXPECT(g.first < R && g.second < C, "the grid position of a point is out of range");
    EXPECT(g.first == i / C && g.second == i % C, "the points are not stored row by row");
    EXPECT(t.gridCoordinatesToPoint(g.first, g.second) == i, "index and grid position do not round-trip");
    EXPECT(t.point(i) == before.col(i), "wrong position for an index"); EXPECT(t.gridPoint(g.first, g.second) == before.col(i), "wrong position for a grid position");
    double* q = t.pointMutable(i); EXPECT(q[0] == before(0, i) && q[1] == before(1, i) && q[2] == before(2, i), "the mutable pointer refers to another point");
  }
  for (size_t r = 0; r < R; ++r) for (size_t c = 0; c < C; ++c) EXPECT(t.gridCoordinatesToPoint(r, c) == r * C + c, "wrong index for a grid position");
  EXPECT(t.width() == std::abs(before(0, C - 1) - before(0, 0)), "wrong width"); EXPECT(t.height() == std::abs(before(1, C * (R - 1)) - before(1, 0)), "wrong height");
  if (R * C) { size_t k = rp::rnd(0, R * C - 1); t.pointMutable(k)[1] = 77.25; Eigen::Matrix3Xd e = before; e(1, k) = 77.25; EXPECT(t.points() == e, "writing through the mutable pointer changed something else"); t.pointMutable(k)[1] = before(1, k); }
  EXPECT(t.points() == before, "queries changed the points");
}
static void refusals(size_t R, size_t C) {
  Eigen::Matrix3Xd P = Eigen::Matrix3Xd::Random(3, R * C); T t(R, C, P); std::string s = "target " + std::to_string(R) + "x" + std::to_string(C) + " ";
  for (size_t i : {R * C, R * C + C, size_t(1) << 32, ~size_t(0)}) {
    std::string k = std::to_string(i);
    refuse(s + "point " + k, [&] { t.point(i); }); refuse(s + "mutable point " + k, [&] { t.pointMutable(i); }); refuse(s + "grid of point " + k, [&] { t.pointToGridCoordinates(i); });
  }
  for (auto rc : {std::make_pair(R, size_t(0)), std::make_pair(size_t(0), C), std::make_pair(R - 1, C), std::make_pair(~size_t(0), size_t(0))}) {
    std::string k = std::to_string(rc.first) + "," + std::to_string(rc.second);
    refuse(s + "grid position " + k, [&] { t.gridCoordinatesToPoint(rc.first, rc.second); }); refuse(s + "grid point " + k, [&] { t.gridPoint(rc.first, rc.second); });
  }
  refuse(s + "one point short", [&] { T u(R, C, Eigen::Matrix3Xd::Random(3, R * C - 1)); }); refuse(s + "one point too many", [&] { T u(R, C, Eigen::Matrix3Xd::Random(3, R * C + 1)); });
  refuse("no rows", [&] { T u(0, C, Eigen::Matrix3Xd(3, 0)); }); refuse("no columns", [&] { T u(R, 0, Eigen::Matrix3Xd(3, 0)); });
}
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("b01"); FLAGS_minloglevel = 3;
  refusals(1, 1); refusals(3, 5); refusals(6, 2);
  for (size_t r = 1; r <= 7; ++r) for (size_t c = 1; c <= 7; ++c) check(r, c);
  check(1, 300); check(300, 1); check(255, 3); check(2, 257); check(70, 100);
  while (rp::more()) check(rp::rnd(1, rp::rnd(0, 9) ? 12 : 80), rp::rnd(1, rp::rnd(0, 9) ? 12 : 80));
  rp::done();
}
