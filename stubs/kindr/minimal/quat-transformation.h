// Stand-in for the minkindr dependency, which is not installed: a rigid transformation as its 4x4 matrix.
// Only what the sources under contract need in order to be parsed and run; nothing of it is verified.
#ifndef VERIF_STUB_KINDR_H_
#define VERIF_STUB_KINDR_H_
#include <Eigen/Dense>
#include <ostream>
namespace kindr {
namespace minimal {
template <typename S> struct RotationQuaternionTemplate {
  RotationQuaternionTemplate() : q(1, 0, 0, 0) {}
  RotationQuaternionTemplate(S w, S x, S y, S z) : q(w, x, y, z) {}
  Eigen::Matrix<S, 3, 3> getRotationMatrix() const { return q.toRotationMatrix(); }
  Eigen::Quaternion<S, Eigen::DontAlign> q;
};
template <typename S> using PositionTemplate = Eigen::Matrix<S, 3, 1>;
typedef RotationQuaternionTemplate<double> RotationQuaternion;
typedef PositionTemplate<double> Position;
struct AngleAxis { double a[4]; };
class QuatTransformation {
 public:
  QuatTransformation() { setIdentity(); }
  QuatTransformation(const RotationQuaternion& q, const Position& p) { setIdentity(); Eigen::Matrix4d M = Eigen::Matrix4d::Identity(); M.topLeftCorner<3, 3>() = q.getRotationMatrix(); M.topRightCorner<3, 1>() = p; put(M); }
  explicit QuatTransformation(const Eigen::Matrix4d& M) { put(M); }
  Eigen::Matrix4d getTransformationMatrix() const { Eigen::Matrix4d M; for (int i = 0; i < 16; ++i) M(i / 4, i % 4) = m_[i]; return M; }
  QuatTransformation inverse() const { Eigen::Matrix4d M = getTransformationMatrix(), R = Eigen::Matrix4d::Identity(); R.topLeftCorner<3, 3>() = M.topLeftCorner<3, 3>().transpose(); R.topRightCorner<3, 1>() = -R.topLeftCorner<3, 3>() * M.topRightCorner<3, 1>(); return QuatTransformation(R); }
  void setIdentity() { put(Eigen::Matrix4d::Identity()); }
  Eigen::Matrix<double, 6, 6> getAdjoint() const { return Eigen::Matrix<double, 6, 6>::Identity(); }
 private:
  void put(const Eigen::Matrix4d& M) { for (int i = 0; i < 16; ++i) m_[i] = M(i / 4, i % 4); }
  double m_[16];
};
}  // namespace minimal
}  // namespace kindr
#endif
