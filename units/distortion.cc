// Verification unit: distortion models.
#include "aslam_cv_cameras/src/distortion.cc"
#include "aslam_cv_cameras/src/distortion-radtan.cc"
#include "aslam_cv_cameras/src/distortion-equidistant.cc"
#include "aslam_cv_cameras/src/distortion-fisheye.cc"
#include <aslam/cameras/distortion-null.h>
namespace vu {
using namespace aslam;
typedef Eigen::VectorXd V; typedef Eigen::Vector2d P; typedef Eigen::Matrix2d J; typedef Eigen::Matrix<double, 2, Eigen::Dynamic> JP;
#define MODEL(N, T) \
  void N##_distort(const T& d, const V* c, P* p, J* j) { d.distortUsingExternalCoefficients(c, p, j); } \
  void N##_param(const T& d, const V* c, const P& p, JP* j) { d.distortParameterJacobian(c, p, j); } \
  void N##_undistort(const T& d, const V& c, P* p) { d.undistortUsingExternalCoefficients(c, p); } \
  bool N##_valid(const V& c) { return T::areParametersValid(c); } \
  bool N##_dvalid(const T& d, const V& c) { return d.distortionParametersValid(c); } \
  size_t N##_count() { return T::parameterCount(); } \
  int N##_size(const T& d) { return d.getParameterSize(); } \
  Distortion* N##_clone(const T& d) { return d.clone(); }
MODEL(radtan, RadTanDistortion)
MODEL(equi, EquidistantDistortion)
MODEL(fish, FisheyeDistortion)
MODEL(nul, NullDistortion)
RadTanDistortion* radtan_make(const V& c) { return new RadTanDistortion(c); }
EquidistantDistortion* equi_make(const V& c) { return new EquidistantDistortion(c); }
FisheyeDistortion* fish_make(const V& c) { return new FisheyeDistortion(c); }
NullDistortion* nul_make() { return new NullDistortion(); }
void fish_template(const FisheyeDistortion& d, const V& c, const P& p, P* o) { d.distortUsingExternalCoefficients<double, V>(c, p, o); }
void nul_template(const NullDistortion& d, const V& c, const P& p, P* o) { d.distortUsingExternalCoefficients<double, V>(c, p, o); }
bool equal(const Distortion& a, const Distortion& b) { return a == b; }
void distort1(const Distortion& d, P* p) { d.distort(p); }
void distort2(const Distortion& d, const P& p, P* o) { d.distort(p, o); }
void distort3(const Distortion& d, P* p, J* j) { d.distort(p, j); }
void undistort1(const Distortion& d, P* p) { d.undistort(p); }
void undistort2(const Distortion& d, const P& p, P* o) { d.undistort(p, o); }
void set_params(Distortion* d, const V& c) { d->setParameters(c); }
const V& get_params(const Distortion& d) { return d.getParameters(); }
double* get_mutable(Distortion* d) { return d->getParametersMutable(); }
Distortion::Type type(const Distortion& d) { return d.getType(); }
}
