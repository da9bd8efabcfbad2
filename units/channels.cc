// Entry points for channel groups.
#include <glog/logging.h>
#include <memory>
#include <string>
#include <vector>
namespace vu {
struct OpaqueA { OpaqueA(); OpaqueA(const OpaqueA&); OpaqueA& operator=(const OpaqueA&); bool operator==(const OpaqueA&) const; long long v[4]; };
struct OpaqueB { OpaqueB(); OpaqueB(const OpaqueB&); OpaqueB& operator=(const OpaqueB&); bool operator==(const OpaqueB&) const; OpaqueB clone() const; long long v[4]; };
}
namespace aslam { namespace internal {
bool serializeToString(const vu::OpaqueA&, std::string*); bool deSerializeFromString(const std::string&, vu::OpaqueA*); bool serializeToBuffer(const vu::OpaqueA&, char**, size_t*); bool deSerializeFromBuffer(const char*, size_t, vu::OpaqueA*);
bool serializeToString(const vu::OpaqueB&, std::string*); bool deSerializeFromString(const std::string&, vu::OpaqueB*); bool serializeToBuffer(const vu::OpaqueB&, char**, size_t*); bool deSerializeFromBuffer(const char*, size_t, vu::OpaqueB*);
bool serializeToString(const std::vector<vu::OpaqueA>&, std::string*); bool deSerializeFromString(const std::string&, std::vector<vu::OpaqueA>*); bool serializeToBuffer(const std::vector<vu::OpaqueA>&, char**, size_t*); bool deSerializeFromBuffer(const char*, size_t, std::vector<vu::OpaqueA>*);
bool serializeToString(const std::shared_ptr<vu::OpaqueA>&, std::string*); bool deSerializeFromString(const std::string&, std::shared_ptr<vu::OpaqueA>*); bool serializeToBuffer(const std::shared_ptr<vu::OpaqueA>&, char**, size_t*); bool deSerializeFromBuffer(const char*, size_t, std::shared_ptr<vu::OpaqueA>*);
} }
#include "aslam_cv_common/src/channel.cc"
#include <aslam/common/channel-declaration.h>
DECLARE_CHANNEL(FIRST, vu::OpaqueA)
DECLARE_CHANNEL(SECOND, vu::OpaqueB)
namespace vu {
using namespace aslam::channels;
typedef std::shared_ptr<OpaqueA> PA;
OpaqueA& get_a(const std::string& n, const ChannelGroup& g) { return getChannelData<OpaqueA>(n, g); }
OpaqueB& get_b(const std::string& n, const ChannelGroup& g) { return getChannelData<OpaqueB>(n, g); }
OpaqueA& add_a(const std::string& n, ChannelGroup* g) { return addChannel<OpaqueA>(n, g); }
OpaqueB& add_b(const std::string& n, ChannelGroup* g) { return addChannel<OpaqueB>(n, g); }
bool has(const std::string& n, const ChannelGroup& g) { return hasChannel(n, g); }
#define CH(N, T) bool compare_##N(Channel<T>* a, const ChannelBase* b) { return a->Channel<T>::compare(*b); } ChannelBase* clone_##N(const Channel<T>* a) { return a->Channel<T>::clone(); } bool eq_##N(Channel<T>* a, const Channel<T>* b) { return *a == *b; } \
  bool to_string_##N(const Channel<T>* a, std::string* s) { return a->Channel<T>::serializeToString(s); } bool from_string_##N(Channel<T>* a, const std::string& s) { return a->Channel<T>::deSerializeFromString(s); } bool to_buffer_##N(const Channel<T>* a, char** b, size_t* n) { return a->Channel<T>::serializeToBuffer(b, n); } bool from_buffer_##N(Channel<T>* a, const char* b, size_t n) { return a->Channel<T>::deSerializeFromBuffer(b, n); }
CH(a, OpaqueA) CH(b, OpaqueB) CH(p, PA) CH(img, cv::Mat)
#define EQ(N, ...) bool eq_##N(Channel<__VA_ARGS__>* a, const Channel<__VA_ARGS__>* b) { return *a == *b; }
EQ(vx, Eigen::VectorXi) EQ(m2, Eigen::Matrix2Xd) EQ(mx, Eigen::Matrix<unsigned char, -1, -1>) EQ(fix, Eigen::Matrix<double, 2, 2>) EQ(list, std::vector<OpaqueA>)
void copy(ChannelGroup& g) { ChannelGroup c(g); }
void assign(ChannelGroup* a, const ChannelGroup& b) { *a = b; }
}
