// Entry points for channel serialization.
#include <glog/logging.h>
#include "aslam_cv_common/src/channel-serialization.cc"
namespace vu {
namespace ser = aslam::internal;
typedef ser::HeaderInformation Header;
#define FORMS(N, M) \
  bool N##_to_buffer(const M& m, char** b, size_t* n) { return ser::serializeToBuffer(m, b, n); } \
  bool N##_to_string(const M& m, std::string* s) { return ser::serializeToString(m, s); } \
  bool N##_from_buffer(const char* b, size_t n, M* m) { return ser::deSerializeFromBuffer(b, n, m); } \
  bool N##_from_string(const std::string& s, M* m) { return ser::deSerializeFromString(s, m); }
typedef Eigen::Matrix<double, -1, -1> Dxx; typedef Eigen::Matrix<unsigned char, -1, -1> Bxx; typedef Eigen::Matrix<double, 2, -1> D2x; typedef Eigen::Matrix<int, -1, 3> Ix3; typedef Eigen::Matrix<float, -1, 1> Fx1; typedef Eigen::Matrix<double, 3, 2> D32;
FORMS(dxx, Dxx) FORMS(bxx, Bxx) FORMS(d2x, D2x) FORMS(ix3, Ix3) FORMS(fx1, Fx1) FORMS(d32, D32)
FORMS(ldxx, std::vector<Dxx>) FORMS(ld2x, std::vector<D2x>)
FORMS(img, cv::Mat)
#define SC(N, T) bool N##_to_buffer(const T& v, char** b, size_t* n) { return ser::serializeToBuffer(v, b, n); } bool N##_from_buffer(const char* b, size_t n, T* v) { return ser::deSerializeFromBuffer(b, n, v); }
SC(s64, uint64_t) SC(sd, double) SC(s8, unsigned char) SC(si, int)
bool header_to(const Header& h, char* b, size_t o) { return h.serializeToBuffer(b, o); }
bool header_from(const char* b, size_t o, Header* h) { return h->deSerializeFromBuffer(b, o); }
}
