#include "common.h"
#include <aslam/common/reader-writer-lock.h>
#include <aslam/common/reader-first-reader-writer-lock.h>
#include <memory>
using namespace rp;
template <class G> void chains(bool write) {
  for (int it = 0; it < 20000 && more(write ? 0.9 : 0.45); ++it) {
    aslam::ReaderWriterMutex lk; std::string d = write ? "write guard:" : "read guard:"; int n = (int)rnd(1, 5), roots = write ? 1 : (int)rnd(1, 3);
    std::vector<std::unique_ptr<G>> g; std::vector<int> owns;
    for (int i = 0; i < roots; ++i) { g.emplace_back(new G(&lk)); owns.push_back(1); }
    EXPECT(lk.isInUse(), "a live guard holds the lock");
    for (int k = 0; k < n; ++k) { int f = (int)rnd(0, g.size() - 1); if (!g[f]) continue; d += " move" + std::to_string(f); CASES(d); g.emplace_back(new G(std::move(*g[f]))); owns.push_back(owns[f]); owns[f] = 0; EXPECT(lk.isInUse(), "a live guard holds the lock"); }
    int left = roots;
    while (true) { std::vector<int> c; for (size_t i = 0; i < g.size(); ++i) if (g[i]) c.push_back((int)i); if (c.empty()) break; int f = c[rnd(0, c.size() - 1)]; d += " drop" + std::to_string(f); CASES(d); g[f].reset(); left -= owns[f]; owns[f] = 0; EXPECT(lk.isInUse() == (left > 0), "the lock is held exactly while an owning guard lives"); }
    if (!write) { lk.acquireReadLock(); EXPECT(lk.upgradeToWriteLock(), "sole reader upgrades afterwards"); lk.releaseWriteLock(); }
    else { lk.acquireWriteLock(); lk.releaseWriteLock(); }
    EXPECT(!lk.isInUse(), "balanced at the end");
  }
}
int main(int c, char** v) {
  init(c, v);
  CASE("null lock"); EXPECT(refused([] { aslam::ScopedReadLock g(nullptr); }), "null refused"); EXPECT(refused([] { aslam::ScopedWriteLock g(nullptr); }), "null refused");
  chains<aslam::ScopedReadLock>(false); chains<aslam::ScopedWriteLock>(true);
  { CASE("write guard on the reader-first lock"); aslam::ReaderFirstReaderWriterMutex l; { aslam::ScopedWriteLock g(&l); aslam::ScopedWriteLock h(std::move(g)); EXPECT(l.isInUse(), "held"); } EXPECT(!l.isInUse(), "released"); { aslam::ScopedReadLock g(&l); aslam::ScopedReadLock h(std::move(g)); EXPECT(l.isInUse(), "held"); } EXPECT(!l.isInUse(), "released"); }
  return done();
}
