// Entry points for timers and statistics.
#define ENABLE_TIMING 1
#define ENABLE_STATISTICS 1
#include "aslam_cv_common/src/statistics.cc"
#include "aslam_cv_common/src/timer.cc"
namespace vu {
using namespace statistics; using namespace timing;
}
