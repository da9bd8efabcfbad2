// Verification unit: binary descriptors.
#include <aslam/common/descriptor-utils.h>
#include <aslam/common/feature-descriptor-ref.h>
namespace vu {
using namespace aslam::common;
using namespace aslam::common::descriptor_utils;
int hamming(const unsigned char* a, const unsigned char* b, int n) { Hamming h; return h(a, b, n); }
size_t diff_const(const FeatureDescriptorConstRef& a, const FeatureDescriptorConstRef& b) { return GetNumBitsDifferent(a, b); }
size_t diff_write(const FeatureDescriptorRef& a, const FeatureDescriptorRef& b) { return GetNumBitsDifferent(a, b); }
void set_bit(size_t k, FeatureDescriptorRef* d) { SetBit(k, d); }
bool get_bit(size_t k, const FeatureDescriptorConstRef& d) { return GetBit(k, d); }
void flip_bit(size_t k, FeatureDescriptorRef* d) { FlipBit(k, d); }
void flip_n(size_t n, FeatureDescriptorRef* d) { FlipNRandomBits(n, d); }
bool get_bit_m(unsigned k, const DescriptorType& d) { return getBit(k, d); }
void set_bit_m(unsigned k, DescriptorType* d) { setBit(k, d); }
void mean_rounded(const DescriptorsType& d, DescriptorType* m) { descriptorMeanRoundedToBinaryValue(d, m); }
void closest(const DescriptorsType& d, size_t* i) { getIndexOfDescriptorClosestToMedian(d, i); }
double abs_dev(const DescriptorsType& d) { return descriptorMeanAbsoluteDeviation(d); }
void mean_float(const DescriptorsType& d, Eigen::VectorXd* m) { floatDescriptorMean(d, m); }
double diff_mean(const DescriptorType& d, const Eigen::VectorXd& m) { return differenceToMeanSquaredNorm(d, m); }
double std_dev(const DescriptorsType& d) { return descriptorMeanStandardDeviation(d); }
void mean_ref(const std::vector<FeatureDescriptorRef*>& f, FeatureDescriptorRef* m) { DescriptorMean(f, m); }
FeatureDescriptorRef* make_empty() { return new FeatureDescriptorRef(); }
FeatureDescriptorRef* make_wrap(unsigned char* d, size_t n, bool o) { return new FeatureDescriptorRef(d, n, o); }
FeatureDescriptorRef* make_size(uint32_t n) { return new FeatureDescriptorRef(n); }
FeatureDescriptorRef* make_copy(const FeatureDescriptorRef& o) { return new FeatureDescriptorRef(o); }
void assign(FeatureDescriptorRef* a, const FeatureDescriptorRef& b) { *a = b; }
void destroy(FeatureDescriptorRef* a) { a->~FeatureDescriptorRefBase(); }
void release(FeatureDescriptorRef* a) { a->Release(); }
void allocate(FeatureDescriptorRef* a, size_t n) { a->Allocate(n); }
void zero(FeatureDescriptorRef* a) { a->SetZero(); }
void random(FeatureDescriptorRef* a, int s) { a->SetRandom(s); }
bool equal(const FeatureDescriptorRef& a, const FeatureDescriptorRef& b) { return a == b; }
bool equal_c(const FeatureDescriptorConstRef& a, const FeatureDescriptorConstRef& b) { return a == b; }
unsigned char& elem(FeatureDescriptorRef& a, size_t i) { return a[i]; }
const unsigned char& elem_c(const FeatureDescriptorRef& a, size_t i) { return a[i]; }
const unsigned char& elem_cc(const FeatureDescriptorConstRef& a, size_t i) { return a[i]; }
void assign_c(FeatureDescriptorConstRef* a, const FeatureDescriptorConstRef& b) { *a = b; }
void copy_c(const FeatureDescriptorConstRef& b, FeatureDescriptorConstRef* out) { FeatureDescriptorConstRef t(b); *out = t; }
void to_const(const FeatureDescriptorRef& a, FeatureDescriptorConstRef* out) { *out = a.ToConstRef(); }
unsigned char* data(FeatureDescriptorRef& a) { return a.data(); }
}
