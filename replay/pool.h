#include "fibers.h"
#include <aslam/common/thread-pool.h>
#include <memory>
using namespace rp;
// Schedules of enqueuers, workers, waiters and a controller over the real pool; the driver keeps its own account of every task.
struct Job { int id; size_t group; bool gated, gate = false, accepted = false; int starts = 0, ends = 0, kind = 0, by = 0; long called = 0, returned = 0; std::future<int> fut; };
inline bool is_ready(std::future<int>& f) { return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; }
inline void pool_schedules() {
  static const size_t NG = aslam::ThreadPool::kGroupdIdNonExclusiveTask;
  for (uint64_t it = 0; more(); ++it) {
    uint64_t seed = rnd(); int nw = (int)rnd(1, 3), ne = (int)rnd(1, 2);
    sched::reset(seed, (int)rnd(0, 3) * 25, rnd(0, 3) == 0 ? 20 : 0);
    std::string desc = std::to_string(nw) + " workers;"; std::vector<std::string> log;
    std::vector<std::unique_ptr<Job>> jobs; long clock = 0; bool stopped = false, destroyed = false; int done_enq = 0; long stop_at = 0;
    std::vector<int> waiting; std::vector<size_t> groups = {NG, 0, 1, 7, NG - 1, (size_t)1 << 32}; 
    size_t gs = rnd(1, groups.size());
    auto note = [&](const std::string& s) { log.push_back(s); };
    auto bad = [&](const std::string& m) { std::string d = desc; size_t b = log.size() > 60 ? log.size() - 60 : 0; for (size_t i = b; i < log.size(); ++i) d += " " + log[i]; CASES(d + " | schedule" + sched::schedule()); fail(m); };
    CASES(desc);
    auto pool = std::make_unique<aslam::ThreadPool>(nw);
    auto gname = [&](size_t g) { return g == NG ? std::string("-") : std::to_string(g); };
    std::function<void(int, int)> enqueue;
    auto body = [&](int id) -> int {
      Job* j = jobs[id].get();
      note("start" + std::to_string(id)); ++j->starts;
      if (j->starts > 1) bad("a task is run twice");
      if (stop_at && j->called > stop_at) bad("a task enqueued after the stop is run");
      if (destroyed) bad("a task runs after the destruction returned");
      if (j->group != NG) for (auto& o : jobs) if (o->id != id && o->group == j->group) {
        if (o->starts > o->ends) bad("two tasks of one group overlap");
        if (o->accepted && !o->starts && o->returned && o->returned < j->called) bad("tasks of one group start out of order");
        if (o->by == j->by && o->accepted && !o->starts && o->called < j->called) bad("tasks of one group start out of order");
      }
      if (j->gated) sched::block_until([j] { return j->gate; }); else { int k = (int)(sched::r64() % 3); while (k--) sched::yield(); }
      if (j->kind == 1) { enqueue(100 + id, 0); }
      if (j->returned && is_ready(j->fut)) bad("a future is ready before its task has finished");
      ++j->ends; note("end" + std::to_string(id));
      if (j->kind == 2) throw std::runtime_error("task error");
      return 1000 + id;
    };
    enqueue = [&](int by, int allow) {
      if (jobs.size() > 14) return;
      int id = (int)jobs.size(); jobs.emplace_back(new Job{}); Job* j = jobs.back().get(); j->id = id; j->by = by; j->group = groups[sched::r64() % gs]; j->gated = sched::r64() % 2; j->kind = allow && sched::r64() % 6 == 0 ? 1 : sched::r64() % 8 == 0 ? 2 : 0;
      j->called = ++clock; bool was_stopped = stop_at != 0; j->accepted = true;
      note("enq" + std::to_string(id) + "(group " + gname(j->group) + (j->gated ? ",gated" : "") + ")");
      std::function<int()> f = [&, id] { return body(id); };
      bool plain = j->group == NG && sched::r64() % 2;
      std::future<int> fu = plain ? pool->enqueue(f) : pool->enqueueOrdered(j->group, f);
      j->returned = ++clock;
      if (was_stopped && fu.valid()) bad("enqueuing on a stopped pool returns a valid future");
      if (!fu.valid()) { j->accepted = false; if (!stopped) bad("enqueuing on a running pool returns an invalid future"); if (j->starts) bad("a refused task is run"); }
      else j->fut = std::move(fu);
    };
    std::vector<int> inwait(ne, 0);
    for (int e = 0; e < ne; ++e) sched::spawn([&, e] {
      int n = 1 + (int)(sched::r64() % 6);
      for (int k = 0; k < n; ++k) {
        int r = (int)(sched::r64() % 8);
        if (r == 0) {
          std::vector<int> before; for (auto& j : jobs) if (j->accepted && j->returned) before.push_back(j->id);
          note("wait"); inwait[e] = 1; pool->waitForEmptyQueue(); inwait[e] = 0; note("wait-returns");
          for (int b : before) if (!jobs[b]->ends) bad("waiting returned although task " + std::to_string(b) + " has not finished");
        } else if (r == 1) { size_t a = pool->numActiveThreads(); if (a > (size_t)nw) bad("more active threads than workers"); }
        else if (r == 2) sched::yield();
        else enqueue(e, 1);
      }
      ++done_enq;
    });
    int asleep_limit = 0; (void)asleep_limit;
    bool drop_early = rnd(0, 3) == 0, stop_some = rnd(0, 3) == 0, stop_race = rnd(0, 5) == 0; bool controller_done = false;
    auto running = [&] { int r = 0; for (auto& j : jobs) r += j->starts > j->ends; return r; };
    auto check = [&] {
      int R = running(), W = nw;
      for (auto& j : jobs) {
        if (j->accepted && j->returned) {
          bool rdy = is_ready(j->fut);
          if (j->ends && !rdy) bad("the future of finished task " + std::to_string(j->id) + " is not ready");
          if (!j->ends && rdy) bad("the future of unfinished task " + std::to_string(j->id) + " is ready");
        }
        if (j->accepted && j->returned && !j->starts && R < W) {
          bool busy = false; if (j->group != NG) for (auto& o : jobs) if (o->group == j->group && o->starts > o->ends) busy = true;
          if (!busy) bad("task " + std::to_string(j->id) + " is not started although its group is free and a worker is idle");
        }
      }
    };
    auto open_one = [&] { std::vector<Job*> c; for (auto& j : jobs) if (j->starts > j->ends && j->gated && !j->gate) c.push_back(j.get()); if (c.empty()) return false; c[sched::r64() % c.size()]->gate = true; return true; };
    bool destroying = false, finished = false;
    if (stop_race) { sched::spawn([&] { int k = (int)(sched::r64() % 40); while (k--) sched::yield(); if (destroying) return; note("stop"); stopped = true; pool->stop(); stop_at = ++clock; }); }
    sched::spawn([&] {   // opens gates and checks whenever nothing else can move
      for (int r = 0; r < 300 && !finished; ++r) {
        sched::quiesce(); if (finished) return;
        check();
        int R = running();
        if (!destroying) { if (pool->numActiveThreads() != (size_t)R) bad("the active count is " + std::to_string(pool->numActiveThreads()) + " while " + std::to_string(R) + " tasks run"); }
        bool open = false; for (auto& j : jobs) if (j->accepted && !j->ends) open = true;
        if (!open) for (int e = 0; e < ne; ++e) if (inwait[e]) bad("a waiter sleeps although no task is queued or running");
        if (stop_some && !stopped && !destroying && sched::r64() % 3 == 0) { note("stop"); stopped = true; pool->stop(); stop_at = ++clock; }
        open_one();
      }
    });
    sched::spawn([&] {   // ends the pool
      sched::block_until([&] { return done_enq == ne && (drop_early || [&] { for (auto& j : jobs) if (j->accepted && !j->ends) return false; return true; }()); });
      if (!drop_early) { note("wait"); pool->waitForEmptyQueue(); for (auto& j : jobs) if (j->accepted && !j->ends) bad("waiting returned although task " + std::to_string(j->id) + " has not finished"); }
      // tasks that enqueue others must be through before the pool goes away
      sched::block_until([&] { for (auto& j : jobs) if (j->kind == 1 && j->accepted && !j->ends) return false; return true; });
      destroying = true; note("destroy"); pool.reset(); destroyed = true; finished = true;
      for (auto& j : jobs) {
        if (j->accepted && j->ends != 1) bad("accepted task " + std::to_string(j->id) + " never ran");
        if (!j->accepted && j->starts) bad("a refused task is run");
        if (j->accepted) { if (!is_ready(j->fut)) bad("the future of a finished task is not ready"); try { int v = j->fut.get(); if (j->kind == 2 || v != 1000 + j->id) bad("a future delivers a wrong result"); } catch (const std::runtime_error&) { if (j->kind != 2) bad("a future delivers an error"); } }
      }
    });
    ++g_cases;
    if (!sched::run()) bad("all threads are asleep although work or waiters remain");
  }
}
