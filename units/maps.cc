// Entry points for the conversion of remap tables.
#include "aslam_cv_pipeline/src/test/convert-maps-legacy.cc"
namespace vu {
void convert(cv::InputArray m1, cv::InputArray m2, cv::OutputArray d1, cv::OutputArray d2, int type, bool nn) { aslam::convertMapsLegacy(m1, m2, d1, d2, type, nn); }
}
