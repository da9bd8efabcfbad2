// Verification unit: identifiers.
#include <aslam/common/hash-id.h>
#include <aslam/common/unique-id.h>
#include "aslam_cv_common/src/hash-id.cc"
#include "aslam_cv_common/src/internal/unique-id.cc"
template class aslam::UniqueId<aslam::FrameId>;
namespace vu {
void use(aslam::FrameId* f, aslam::HashId* h) {
  aslam::generateId(f);
  aslam::generateIdFromInt(3u, f);
  *f = aslam::createRandomId<aslam::FrameId>();
  std::hash<aslam::FrameId>()(*f);
  std::hash<aslam::HashId>()(*h);
  std::hash<aslam::Id>()(aslam::Id());
  std::hash<std::pair<aslam::FrameId, aslam::FrameId>>()(std::make_pair(*f, *f));
}
}  // namespace vu
