// Verification unit: the camera base class and the pinhole camera.
#define ASLAM_CAMERAS_CAMERA_FACTORY_H_            // included by camera-pinhole.cc, which uses nothing of it
#define ASLAM_RANDOM_CAMERA_GENERATOR_H_
#include <map>
#include "aslam_cv_cameras/src/distortion.cc"
#include "aslam_cv_cameras/src/camera.cc"
#include "aslam_cv_cameras/src/camera-pinhole.cc"
namespace vu {
using namespace aslam;
typedef Eigen::VectorXd V; typedef Eigen::Vector2d P; typedef Eigen::Vector3d X; typedef Eigen::Matrix<double, 2, Eigen::Dynamic> JP; typedef Eigen::Matrix<double, 2, 3> J3;
typedef Eigen::Ref<const X> RX; typedef Eigen::Ref<const Eigen::Vector4d> RH; typedef Eigen::Ref<const P> RP;
ProjectionResult functional(const PinholeCamera& c, const RX& p, const V* i, const V* d, P* k, J3* jp, JP* ji, JP* jd) { return c.project3Functional(p, i, d, k, jp, ji, jd); }
ProjectionResult functional4(const PinholeCamera& c, const RX& p, const V* i, const V* d, P* k) { return c.project3Functional(p, i, d, k); }
ProjectionResult functionalt(const PinholeCamera& c, const X& p, const V& i, const V& d, P* k) { return c.project3Functional<double, NullDistortion, V, V>(p, i, d, k); }
ProjectionResult functionalf(const PinholeCamera& c, const X& p, const V& i, const V& d, P* k) { return c.project3Functional<double, FisheyeDistortion, V, V>(p, i, d, k); }
ProjectionResult project3(const PinholeCamera& c, const RX& p, P* k) { return c.project3(p, k); }
ProjectionResult project3j(const PinholeCamera& c, const RX& p, P* k, J3* j) { return c.project3(p, k, j); }
ProjectionResult project4(const PinholeCamera& c, const RH& p, P* k) { return c.project4(p, k); }
ProjectionResult project4j(const PinholeCamera& c, const RH& p, P* k, Eigen::Matrix<double, 2, 4>* j) { return c.project4(p, k, j); }
bool back3(const PinholeCamera& c, const RP& k, X* p) { return c.backProject3(k, p); }
bool back4(const PinholeCamera& c, const RP& k, Eigen::Vector4d* p) { return c.backProject4(k, p); }
bool projectable3(const PinholeCamera& c, const RX& p) { return c.isProjectable3(p); }
bool projectable4(const PinholeCamera& c, const RH& p) { return c.isProjectable4(p); }
bool visible(const PinholeCamera& c, const P& k) { return c.isKeypointVisible(k); }
bool margin(const PinholeCamera& c, const P& k, double m) { return c.isKeypointVisibleWithMargin(k, m); }
void many(const PinholeCamera& c, const Eigen::Ref<const Eigen::Matrix3Xd>& p, Eigen::Matrix2Xd* k, std::vector<ProjectionResult>* r) { c.project3Vectorized(p, k, r); }
void backmany(const PinholeCamera& c, const Eigen::Ref<const Eigen::Matrix2Xd>& k, Eigen::Matrix3Xd* p, std::vector<unsigned char>* r) { c.backProject3Vectorized(k, p, r); }
Eigen::Matrix3d matrix(const PinholeCamera& c) { return c.getCameraMatrix(); }
bool valid(const V& v) { return PinholeCamera::areParametersValid(v); }
bool valid2(const PinholeCamera& c, const V& v) { return c.intrinsicsValid(v); }
ProjectionResult::Status status(const ProjectionResult& r) { return r.getDetailedStatus(); }
bool truth(const ProjectionResult& r) { return static_cast<bool>(r); }
void borders(const PinholeCamera& c, Eigen::MatrixXd& r) { c.getBorderRays(r); }
PinholeCamera* make(const V& i, uint32_t w, uint32_t h) { return new PinholeCamera(i, w, h); }
PinholeCamera* make4(double a, double b, double c, double d, uint32_t w, uint32_t h) { return new PinholeCamera(a, b, c, d, w, h); }
PinholeCamera* maked(const V& i, uint32_t w, uint32_t h, Distortion::UniquePtr& d) { return new PinholeCamera(i, w, h, d); }
Camera* clone(const PinholeCamera& c) { return c.clone(); }
int64_t delay(const PinholeCamera& c, const P& k) { return c.rollingShutterDelayNanoSeconds(k); }
int64_t maxdelay(const PinholeCamera& c) { return c.maxRollingShutterDelayNanoSeconds(); }
}
