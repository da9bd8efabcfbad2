#include "aslam_cv_common/src/reader-writer-lock.cc"
#include "aslam_cv_common/src/reader-first-reader-writer-lock.cc"
void vu_use(aslam::ReaderWriterMutex* m) {
  aslam::ScopedReadLock r(m); aslam::ScopedReadLock r2(std::move(r));
  aslam::ScopedWriteLock w(m); aslam::ScopedWriteLock w2(std::move(w));
}
