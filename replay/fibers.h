// Deterministic scheduler for the real compiled code: threads become fibers, every mutex and condition-variable
// operation is a scheduling point, the schedule is drawn from the seed, and a state in which nobody can run is reported.
#pragma once
#include "common.h"
#include <functional>
#include <memory>
#include <pthread.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unordered_map>
#include <vector>
namespace sched {
struct Fiber { ucontext_t ctx; void* stack = nullptr; std::function<void()> fn; int state = 0; /*0 run 1 mutex 2 cond 3 join 4 done 5 predicate 6 quiescence*/ void* on = nullptr; int join = -1; bool signalled = false; std::function<bool()> pred; };
static std::vector<std::unique_ptr<Fiber>> F;
static std::unordered_map<void*, int> owner;
static std::vector<void*> pool;
static ucontext_t main_ctx;
static int cur = -1, sticky = 50, spurious = 0;
static bool on = false;
static std::vector<int> trace;
static uint64_t rs = 1;
static std::unordered_map<int, void*> cond_mutex;
static const size_t STK = 256 * 1024;
inline uint64_t r64() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
inline void* stack() { if (!pool.empty()) { void* p = pool.back(); pool.pop_back(); return p; } return mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
static void tramp() { int me = cur; F[me]->fn(); F[me]->state = 4; F[me]->fn = nullptr; swapcontext(&F[me]->ctx, &main_ctx); }
inline int spawn(std::function<void()> f) {
  auto p = std::make_unique<Fiber>(); p->fn = std::move(f); p->stack = stack();
  getcontext(&p->ctx); p->ctx.uc_stack.ss_sp = p->stack; p->ctx.uc_stack.ss_size = STK; p->ctx.uc_link = &main_ctx; makecontext(&p->ctx, tramp, 0);
  F.push_back(std::move(p)); return (int)F.size() - 1;
}
inline void park() { int me = cur; swapcontext(&F[me]->ctx, &main_ctx); }
inline void yield() { if (on && cur >= 0) park(); }
inline bool ready(int i) {
  Fiber& f = *F[i];
  if (f.state == 0) return true;
  if (f.state == 1) { auto it = owner.find(f.on); return it == owner.end() || it->second < 0; }
  if (f.state == 3) return F[f.join]->state == 4;
  if (f.state == 5) return f.pred();
  return false;
}
inline void block_until(std::function<bool()> p) { F[cur]->pred = std::move(p); F[cur]->state = 5; park(); }
inline void quiesce() { F[cur]->state = 6; park(); }   // resumed when nobody else can run
// runs until all fibers are done; false if nobody can run.  stuck_ok: fibers that may stay asleep.
inline bool run(size_t max_steps = 100000) {
  on = true; trace.clear(); int last = -1; size_t steps = 0; std::vector<int> rd; bool all;
  for (;;) {
    rd.clear(); all = true;
    for (size_t i = 0; i < F.size(); ++i) { if (F[i]->state != 4) all = false; if (ready((int)i)) rd.push_back((int)i); }
    if (all) { on = false; return true; }
    if (spurious && (int)(r64() % 1000) < spurious) for (size_t i = 0; i < F.size(); ++i) if (F[i]->state == 2 && r64() % 2) { F[i]->state = 1; F[i]->on = cond_mutex[(int)i]; }
    if (rd.empty()) for (size_t i = 0; i < F.size(); ++i) if (F[i]->state == 6) rd.push_back((int)i);
    if (rd.empty()) { on = false; return false; }
    int pick = rd[r64() % rd.size()];
    if (last >= 0 && (int)(r64() % 100) < sticky) for (int x : rd) if (x == last) pick = x;
    if (++steps > max_steps) { on = false; return false; }
    if (trace.size() < 4000) trace.push_back(pick);
    F[pick]->state = 0; cur = last = pick; swapcontext(&main_ctx, &F[pick]->ctx); cur = -1;
  }
}
inline void reset(uint64_t seed, int st, int sp) { for (auto& f : F) if (f->stack) pool.push_back(f->stack); F.clear(); owner.clear(); rs = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull; if (!rs) rs = 1; for (int i = 0; i < 4; ++i) r64(); sticky = st; spurious = sp; cur = -1; }
inline std::string schedule() { std::string s; int n = 0, l = -1; for (size_t i = 0; i <= trace.size() && s.size() < 1500; ++i) { int t = i < trace.size() ? trace[i] : -2; if (t == l) { ++n; continue; } if (l >= 0) { s += " t" + std::to_string(l); if (n > 1) s += "*" + std::to_string(n); } l = t; n = 1; } return s; }
}  // namespace sched
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  using namespace sched;
  if (!on || cur < 0) { owner[m] = 1000000; return 0; }
  int me = cur; F[me]->state = 1; F[me]->on = m;
  if (owner.count(m) && owner[m] == me) rp::fail("a thread locks the mutex it already holds;" + schedule());
  park();                      // resumed only when the mutex is free
  owner[m] = me; return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { using namespace sched; auto it = owner.find(m); if (it != owner.end() && it->second >= 0) return 16; owner[m] = cur < 0 ? 1000000 : cur; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { using namespace sched; owner[m] = -1; if (on && cur >= 0) park(); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  using namespace sched;
  if (!on || cur < 0) rp::fail("waiting outside a scheduled thread");
  int me = cur; owner[m] = -1; F[me]->state = 2; F[me]->on = c; cond_mutex[me] = m;
  park();                      // resumed after a signal once the mutex is free
  owner[m] = me; return 0;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { using namespace sched; int me = cur; owner[m] = -1; F[me]->state = 1; F[me]->on = m; park(); owner[m] = me; return 110; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return pthread_cond_clockwait(c, m, 0, 0); }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { using namespace sched; for (size_t i = 0; i < F.size(); ++i) if (F[i]->state == 2 && F[i]->on == c) { F[i]->state = 1; F[i]->on = cond_mutex[(int)i]; } if (on && cur >= 0) park(); return 0; }
int pthread_cond_signal(pthread_cond_t* c) noexcept {
  using namespace sched; std::vector<int> w; for (size_t i = 0; i < F.size(); ++i) if (F[i]->state == 2 && F[i]->on == c) w.push_back((int)i);
  if (!w.empty()) { int i = w[r64() % w.size()]; F[i]->state = 1; F[i]->on = cond_mutex[i]; }
  if (on && cur >= 0) park(); return 0;
}
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) noexcept { return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*f)(void*), void* a) noexcept { *t = (pthread_t)(sched::spawn([f, a] { f(a); }) + 1); return 0; }
int pthread_join(pthread_t t, void**) { using namespace sched; int j = (int)t - 1; if (on && cur >= 0) { if (F[j]->state != 4) { F[cur]->state = 3; F[cur]->join = j; park(); } } return 0; }
int pthread_detach(pthread_t) noexcept { return 0; }
}
