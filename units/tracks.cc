// Verification unit: track ids.
#include "aslam_cv_frames/src/visual-frame.cc"
#include "aslam_cv_tracker/src/track-manager.cc"
namespace vu {
using namespace aslam;
void apply(SimpleTrackManager& m, const FrameToFrameMatches& l, VisualFrame* a, VisualFrame* b) { m.SimpleTrackManager::applyMatchesToFrames(l, a, b); }
Eigen::VectorXi* channel(VisualFrame* f) { return TrackManager::createAndGetTrackIdChannel(f); }
size_t fresh(ThreadSafeIdProvider<size_t>& p) { return p.getNewId(); }
void restart(ThreadSafeIdProvider<size_t>& p) { p.reset(); }
void make(size_t n) { ThreadSafeIdProvider<size_t> p(n); }
void restart_all() { TrackManager::resetIdProvider(); }
}
