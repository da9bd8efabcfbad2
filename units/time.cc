// Verification unit: time conversions.
#include <string>
#include <limits>
#include <aslam/common/time.h>
namespace vu {
using namespace aslam::time::internal;
int64_t c_sec(int64_t v) { return aslam::time::seconds(v); }
int64_t c_milli(int64_t v) { return aslam::time::milliseconds(v); }
int64_t c_micro(int64_t v) { return aslam::time::microseconds(v); }
int64_t c_nano(int64_t v) { return aslam::time::nanoseconds(v); }
double t_sec(int64_t v) { return aslam::time::to_seconds(v); }
double t_milli(int64_t v) { return aslam::time::to_milliseconds(v); }
double t_micro(int64_t v) { return aslam::time::to_microseconds(v); }
int64_t f_sec(double v) { return aslam::time::from_seconds(v); }
int64_t f_milli(double v) { return aslam::time::from_milliseconds(v); }
int64_t f_micro(double v) { return aslam::time::from_microseconds(v); }
int64_t g_sec(double v) { return aslam::time::secondsToNanoSeconds(v); }
double h_sec(int64_t v) { return aslam::time::nanoSecondsToSeconds(v); }
bool valid(int64_t v) { return aslam::time::isValidTime(v); }
int64_t invalid() { return aslam::time::getInvalidTime(); }
std::string text(int64_t v) { return aslam::time::timeNanosecondsToString(v); }
}
