// Entry points for calibration targets and their observations.
#include <glog/logging.h>
#include "aslam_cv_calibration/src/target-base.cc"
#include <aslam/calibration/target-observation.h>
namespace vu {
using namespace aslam::calibration;
struct Target : public TargetBase { Target(size_t r, size_t c, const Eigen::Matrix3Xd& p) : TargetBase(r, c, p) {} };
TargetBase* make(size_t r, size_t c, const Eigen::Matrix3Xd& p) { return new Target(r, c, p); }
const Eigen::Matrix3Xd& points(const TargetBase& t) { return t.points(); }
Eigen::Vector3d point(const TargetBase& t, size_t i) { return t.point(i); }
double* point_mutable(TargetBase* t, size_t i) { return t->pointMutable(i); }
Eigen::Vector3d grid_point(const TargetBase& t, size_t r, size_t c) { return t.gridPoint(r, c); }
std::pair<size_t, size_t> to_grid(const TargetBase& t, size_t i) { return t.pointToGridCoordinates(i); }
size_t to_point(const TargetBase& t, size_t r, size_t c) { return t.gridCoordinatesToPoint(r, c); }
size_t rows(const TargetBase& t) { return t.rows(); }
size_t cols(const TargetBase& t) { return t.cols(); }
size_t size(const TargetBase& t) { return t.size(); }
double width(const TargetBase& t) { return t.width(); }
double height(const TargetBase& t) { return t.height(); }
TargetObservation* observe(const TargetBase::Ptr& t, uint32_t h, uint32_t w, const Eigen::VectorXi& ids, const Eigen::Matrix2Xd& c) { return new TargetObservation(t, h, w, ids, c); }
bool observed(TargetObservation* o, size_t id) { return o->observedCornerId(id); }
bool all(const TargetObservation& o) { return o.allCornersObservered(); }
size_t count(const TargetObservation& o) { return o.numObservedCorners(); }
const Eigen::Matrix2Xd& corners(const TargetObservation& o) { return o.getObservedCorners(); }
Eigen::Vector2d corner(const TargetObservation& o, size_t i) { return o.getObservedCorner(i); }
const Eigen::VectorXi& ids(const TargetObservation& o) { return o.getObservedCornerIds(); }
bool by_id(const TargetObservation& o, int id, Eigen::Vector2d* c) { return o.getObservedCornerById(id, c); }
size_t id_at(const TargetObservation& o, int i) { return o.getObservedCornerId(i); }
Eigen::Matrix3Xd target_points(const TargetObservation& o) { return o.getCorrespondingTargetPoints(); }
uint32_t im_width(TargetObservation* o) { return o->getImageWidth(); }
uint32_t im_height(TargetObservation* o) { return o->getImageHeight(); }
TargetBase::Ptr target(TargetObservation* o) { return o->getTarget(); }
TargetBase::ConstPtr target_c(const TargetObservation& o) { return o.getTarget(); }
}
