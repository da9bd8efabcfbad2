// Verification unit: camera rigs.
#include <aslam/cameras/camera-factory.h>
#include <aslam/cameras/camera-pinhole.h>
#include "aslam_cv_common/src/sensor.cc"
#include "aslam_cv_cameras/src/ncamera.cc"
namespace vu {
using namespace aslam;
typedef std::vector<std::shared_ptr<Camera>> Cams; typedef TransformationCovariance Cov;
NCamera* make(const NCameraId& id, const TransformationVector& t, const Cams& c, const std::string& d) { return new NCamera(id, t, c, d); }
NCamera* makec(const NCameraId& id, const TransformationVector& t, const Cov& v, const Cams& c, const std::string& d) { return new NCamera(id, t, v, c, d); }
NCamera* empty() { return new NCamera(); }
NCamera* copy(const NCamera& r) { return new NCamera(r); }
NCamera* clone(const NCamera& r) { return r.clone(); }
NCamera* fresh(const NCamera& r) { return r.cloneWithNewIds(); }
std::shared_ptr<NCamera> plain(const NCamera& r) { return r.cloneRigWithoutDistortion(); }
int index(const NCamera& r, const CameraId& i) { return r.getCameraIndex(i); }
bool has(const NCamera& r, const CameraId& i) { return r.hasCameraWithId(i); }
const CameraId& id(const NCamera& r, size_t i) { return r.getCameraId(i); }
const Transformation& at(const NCamera& r, size_t i) { return r.get_T_C_B(i); }
Transformation& mat(NCamera& r, size_t i) { return r.get_T_C_B_Mutable(i); }
const Transformation& of(const NCamera& r, const CameraId& i) { return r.get_T_C_B(i); }
Transformation& mof(NCamera& r, const CameraId& i) { return r.get_T_C_B_Mutable(i); }
void put(NCamera& r, size_t i, const Transformation& t) { r.set_T_C_B(i, t); }
void swap(NCamera& r, size_t i, std::shared_ptr<Camera> c) { r.setCamera(i, c); }
const Camera& cam(const NCamera& r, size_t i) { return r.getCamera(i); }
Camera& mcam(NCamera& r, size_t i) { return r.getCameraMutable(i); }
std::shared_ptr<Camera> shared(NCamera& r, size_t i) { return r.getCameraShared(i); }
std::shared_ptr<const Camera> cshared(const NCamera& r, size_t i) { return r.getCameraShared(i); }
size_t num(const NCamera& r) { return r.numCameras() + r.getNumCameras(); }
const Cams& all(const NCamera& r) { return r.getCameraVector(); }
const TransformationVector& trans(const NCamera& r) { return r.getTransformationVector(); }
}
