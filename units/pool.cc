// Verification unit: thread pool.
#include "aslam_cv_common/src/thread-pool.cc"
namespace vu {
std::future<int> enq_ordered(aslam::ThreadPool& p, size_t group, int (*f)(int), int a) { return p.enqueueOrdered(group, f, a); }
std::future<int> enq(aslam::ThreadPool& p, int (*f)(int), int a) { return p.enqueue(f, a); }
}
