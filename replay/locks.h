#include "fibers.h"
#include <aslam/common/reader-writer-lock.h>
#include <aslam/common/reader-first-reader-writer-lock.h>
#include <memory>
using namespace rp;
// oracle state kept by the driver
struct World { int r = 0, w = 0; std::vector<int> in_up, in_call; };
inline void lock_schedules(unsigned focus) {
  for (uint64_t it = 0; more(); ++it) {
    uint64_t seed = rnd();
    bool rf = rnd() & 1; int n = (int)rnd(2, 4);
    std::unique_ptr<aslam::ReaderWriterMutex> lk(rf ? new aslam::ReaderFirstReaderWriterMutex : new aslam::ReaderWriterMutex);
    World W; W.in_up.assign(n, 0); W.in_call.assign(n, 0);
    std::string desc = rf ? "reader-first lock;" : "writer-preferring lock;";
    std::vector<std::vector<int>> prog(n);
    for (int t = 0; t < n; ++t) { desc += " t" + std::to_string(t) + ":"; int k = (int)rnd(1, 3); for (int j = 0; j < k; ++j) { int op = (int)rnd(0, 6); if (focus == 2 && rnd(0, 1)) op = 2; prog[t].push_back(op); static const char* nm[] = {"read", "write", "read+upgrade", "inuse?", "scoped-read", "scoped-write", "moved-scoped-write"}; desc += std::string(" ") + nm[op]; } desc += ";"; }
    int st = (int)rnd(0, 3) * 25, sp = rnd(0, 3) == 0 ? 20 : 0;
    sched::reset(seed, st, sp);
    auto bad = [&](const std::string& m) { CASES(desc + " schedule" + sched::schedule()); fail(m); };
    for (int t = 0; t < n; ++t) sched::spawn([&, t] {
      auto gotR = [&] { ++W.r; if (W.w) bad("a reader entered while the write lock is held"); };
      auto gotW = [&] { ++W.w; if (W.w > 1) bad("two writers hold the lock"); if (W.r) bad("a writer entered while a read lock is held"); };
      auto spin = [&] { int k = (int)(sched::r64() % 3); while (k--) sched::yield(); };
      aslam::ReaderWriterMutex* l = lk.get();
      for (int op : prog[t]) {
        W.in_call[t] = 1;
        switch (op) {
          case 0: l->acquireReadLock(); gotR(); spin(); --W.r; l->releaseReadLock(); break;
          case 1: l->acquireWriteLock(); gotW(); spin(); --W.w; l->releaseWriteLock(); break;
          case 2: { l->acquireReadLock(); gotR(); spin();
            bool blocked = false; for (int o = 0; o < n; ++o) if (o != t && W.in_up[o] == 2 && sched::F[o]->state == 2) blocked = true;
            // in_up: 1 call under way, 2 seen asleep inside the call
            --W.r; W.in_up[t] = 2; bool ok = l->upgradeToWriteLock(); W.in_up[t] = 0;
            if (ok) { gotW(); spin(); --W.w; l->releaseWriteLock(); }
            if (ok && blocked) bad("an upgrade was granted although another one was pending before it");
            if (!ok) { /* refused: some other upgrade must have been under way */ }
            break; }
          case 3: { bool held = W.r || W.w; bool idle = true; for (int o = 0; o < n; ++o) if (o != t && W.in_call[o]) idle = false;
            std::vector<int> c0 = W.in_call; int r0 = W.r, w0 = W.w; size_t len0 = sched::trace.size(); bool u = l->isInUse();
            bool held2 = (r0 && W.r) || (w0 && W.w); (void)held; (void)len0; (void)c0; (void)held2;
            bool idle2 = true; for (int o = 0; o < n; ++o) if (o != t && W.in_call[o]) idle2 = false;
            if (u && idle && idle2) { bool moved = false; for (size_t i = len0; i < sched::trace.size(); ++i) if (sched::trace[i] != t) moved = true; if (!moved) bad("in-use reported for an idle lock"); }
            if (!u && (r0 || w0)) { bool moved = false; for (size_t i = len0; i < sched::trace.size(); ++i) if (sched::trace[i] != t) moved = true; if (!moved) bad("in-use not reported for a held lock"); }
            break; }
          case 4: { aslam::ScopedReadLock g(l); gotR(); spin(); --W.r; break; }
          case 5: { aslam::ScopedWriteLock g(l); gotW(); spin(); --W.w; break; }
          case 6: { aslam::ScopedWriteLock g(l); aslam::ScopedWriteLock h(std::move(g)); gotW(); spin(); --W.w; break; }
        }
        W.in_call[t] = 0; sched::yield();
      }
    });
    if ((it & 255) == 0) CASES(desc); else ++rp::g_cases;
    if (!sched::run()) bad("threads sleep forever although the lock is free or its holder cannot proceed");
    sched::reset(1, 0, 0);
    if (lk->isInUse()) bad("in-use reported for an idle lock at the end");
  }
}
// one-thread contracts
inline void lock_sequences() {
  for (int v = 0; v < 2; ++v) {
    CASE("single thread, variant %d", v);
    std::unique_ptr<aslam::ReaderWriterMutex> l(v ? new aslam::ReaderFirstReaderWriterMutex : new aslam::ReaderWriterMutex);
    sched::reset(3, 0, 0);
    sched::spawn([&] {
      EXPECT(!l->isInUse(), "idle"); l->acquireReadLock(); EXPECT(l->isInUse(), "reader counts"); l->acquireReadLock(); l->releaseReadLock(); EXPECT(l->isInUse(), "reader counts"); l->releaseReadLock(); EXPECT(!l->isInUse(), "idle");
      l->acquireWriteLock(); EXPECT(l->isInUse(), "writer counts"); l->releaseWriteLock(); EXPECT(!l->isInUse(), "idle");
      l->acquireReadLock(); EXPECT(l->upgradeToWriteLock(), "sole reader upgrades"); EXPECT(l->isInUse(), "writer counts"); l->releaseWriteLock(); EXPECT(!l->isInUse(), "idle");
    });
    EXPECT(sched::run(), "single thread blocks");
    // second upgrade while one is pending
    sched::reset(5, 0, 0); bool first = false, second = true, asleep = false, wr = false;
    int a = sched::spawn([&] { l->acquireReadLock(); for (int i = 0; i < 20; ++i) sched::yield(); first = l->upgradeToWriteLock(); if (first) { EXPECT(!second || asleep, "second upgrade refused first"); l->releaseWriteLock(); } });
    sched::spawn([&] { l->acquireReadLock(); for (int i = 0; i < 400 && sched::F[a]->state != 2; ++i) sched::yield(); asleep = sched::F[a]->state == 2; second = l->upgradeToWriteLock(); if (second) l->releaseWriteLock(); });
    if (v == 1) sched::spawn([&] { for (int i = 0; i < 100; ++i) sched::yield(); l->acquireReadLock(); for (int i = 0; i < 60; ++i) sched::yield(); l->releaseReadLock(); });
    else sched::spawn([&] { for (int i = 0; i < 100; ++i) sched::yield(); l->acquireWriteLock(); wr = true; l->releaseWriteLock(); });
    bool ok = sched::run(); EXPECT(ok, "two upgrades block each other");
    EXPECT(first, "the pending upgrade wins"); if (asleep) EXPECT(!second, "an upgrade is refused while another is pending"); (void)wr;
    sched::reset(1, 0, 0); EXPECT(!l->isInUse(), "idle at the end");
  }
}
