// Verification unit: container helpers.
#include <aslam/common/stl-helpers.h>
namespace vu {
struct Opaque { long v[4]; };
struct Better { bool operator()(const Opaque& a, const Opaque& b) const; };
struct OnRemove { void operator()(const Opaque& a) const; };
using aslam::common::stl_helpers::OneDimensionAdapter;
using aslam::common::stl_helpers::kColumns;
using aslam::common::stl_helpers::kRows;
std::vector<Opaque> erase_copy(const std::vector<Opaque>& d, const std::vector<size_t>& i) { return aslam::common::eraseIndicesFromVector(d, i); }
void erase_vec(const std::vector<size_t>& i, size_t n, std::vector<Opaque>* c) { aslam::common::stl_helpers::eraseIndicesFromContainer(i, n, c); }
void erase_cols(const std::vector<size_t>& i, size_t n, Eigen::Matrix<double, 3, Eigen::Dynamic>* c) { aslam::common::stl_helpers::eraseIndicesFromContainer(i, n, c); }
void erase_rows(const std::vector<size_t>& i, size_t n, Eigen::Matrix<int, Eigen::Dynamic, 1>* c) { aslam::common::stl_helpers::eraseIndicesFromContainer(i, n, c); }
void erase_xcols(const std::vector<size_t>& i, size_t n, OneDimensionAdapter<unsigned char, kColumns>* c) { aslam::common::stl_helpers::eraseIndicesFromContainer(i, n, c); }
void erase_xrows(const std::vector<size_t>& i, size_t n, OneDimensionAdapter<unsigned char, kRows>* c) { aslam::common::stl_helpers::eraseIndicesFromContainer(i, n, c); }
size_t count_nested(const std::vector<std::vector<Opaque>>& l) { return aslam::common::countNumberOfElementsInNestedList(l); }
double med(std::vector<double>::iterator b, std::vector<double>::iterator e) { return aslam::common::median(b, e); }
double avg(std::vector<double>::iterator b, std::vector<double>::iterator e) { return aslam::common::mean(b, e); }
double dev(std::vector<double>::iterator b, std::vector<double>::iterator e) { return aslam::common::stddev(b, e); }
bool rank(const Better& b, const Opaque& x, const Opaque& y) { return b(x, y); }
size_t keep(size_t n, const Better& b, std::vector<Opaque>* c, const OnRemove& r) { return aslam::common::keepOnlyNSortedElements(n, b, c, r); }
void draw(size_t n, const std::vector<Opaque>& in, std::vector<Opaque>* out, bool fixed) { aslam::common::drawNRandomElements(n, in, out, fixed); }
void draw3(size_t n, const std::vector<Opaque>& in, std::vector<Opaque>* out) { aslam::common::drawNRandomElements(n, in, out); }
void cols(const Eigen::Matrix<double, 3, Eigen::Dynamic>& m, Aligned<std::vector, Eigen::Vector3d>* out) { aslam::common::convertEigenToStlVector<3>(m, out); }
}
