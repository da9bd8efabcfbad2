#include "common.h"
#include <aslam/common/unique-id.h>
#include <thread>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <atomic>
#include <sys/syscall.h>
using namespace rp;
static std::atomic<bool> g_frozen{false}; static std::atomic<long> g_at{5};
// an adversarial clock: stands still or jumps when the driver says so
extern "C" int clock_gettime(clockid_t c, struct timespec* t) { if (g_frozen) { t->tv_sec = 1700000000; t->tv_nsec = g_at; return 0; } return syscall(SYS_clock_gettime, c, t); }
int main(int c, char** v) {
  init(c, v);
  { CASE("generated ids, one thread");
    std::set<std::string> seen;
    for (int i = 0; i < 20000; ++i) { aslam::FrameId id; aslam::generateId(&id); EXPECT(id.isValid(), "generated id valid"); EXPECT(seen.insert(id.hexString()).second, "generated twice"); }
    for (int i = 0; i < 2000; ++i) { auto id = aslam::createRandomId<aslam::NFramesId>(); EXPECT(id.isValid(), "generated id valid"); EXPECT(seen.insert(id.hexString()).second, "generated twice"); }
  }
  { CASE("generated ids under a clock that stands still, 8 threads");
    g_frozen = true;
    const int T = 8, N = 600000; std::vector<std::vector<std::pair<uint64_t, uint64_t>>> w(T); std::vector<std::thread> th;
    for (int t = 0; t < T; ++t) th.emplace_back([&, t] { w[t].reserve(N); for (int i = 0; i < N; ++i) { uint64_t h[2]; aslam::internal::generateUnique128BitHash(h); w[t].emplace_back(h[0], h[1]); } });
    for (auto& t : th) t.join();
    std::vector<std::pair<uint64_t, uint64_t>> all; for (auto& x : w) all.insert(all.end(), x.begin(), x.end());
    std::sort(all.begin(), all.end());
    for (size_t i = 0; i < all.size(); ++i) { EXPECT(all[i].first || all[i].second, "invalid id generated"); if (i) EXPECT(all[i] != all[i - 1], "same identifier generated twice"); }
    g_frozen = false; }
  { CASE("clock running backwards");
    std::set<std::pair<uint64_t, uint64_t>> seen;
    for (int i = 0; i < 20000; ++i) { g_frozen = true; g_at = rnd(0, 3); uint64_t h[2]; aslam::internal::generateUnique128BitHash(h); EXPECT(h[0] || h[1], "invalid id generated"); EXPECT(seen.insert({h[0], h[1]}).second, "same identifier generated twice"); }
    g_frozen = false; }
  for (int i = 0; i < 60000 && more(0.6); ++i) {
    uint64_t w[2] = {rnd(), rnd()}; if (i % 5 == 0) w[rnd(0, 1)] = 0; if (i % 7 == 0) w[rnd(0, 1)] = rnd(0, 255);
    aslam::Id id; id.fromHashId(aslam::HashId(w)); aslam::proto::Id m; int pre = rnd(0, 4); for (int k = 0; k < pre; ++k) m.add_uint(rnd());
    CASE("serialize %016llx,%016llx over a message with %d words", w[0], w[1], pre);
    id.serialize(&m); EXPECT(m.uint_size() == 2, "two words"); aslam::Id o; o.deserialize(m); EXPECT(o == id, "round trip"); aslam::Id q(m); EXPECT(q == id, "construct");
    aslam::FrameId f; f.fromHashId(aslam::HashId(w)); f.serialize(&m); EXPECT(m.uint_size() == 2, "two words"); aslam::FrameId g(m); EXPECT(g == f, "typed round trip");
    EXPECT(o.hexString() == aslam::HashId(w).hexString(), "bits");
    EXPECT(id.correspondsTo(m), "correspondsTo");
  }
  { std::unordered_map<std::string, unsigned> seen; auto one = [&](unsigned n) { CASE("id from integer %u", n); aslam::FrameId id; aslam::generateIdFromInt(n, &id); auto r = seen.emplace(id.hexString(), n); EXPECT(r.first->second == n, "two integers, one id"); };
    for (unsigned i = 0; i < 3000; ++i) one(i);
    for (int b = 0; b < 32; ++b) for (int d = -3; d <= 3; ++d) one((1u << b) + d);
    for (unsigned p = 1; p; p = p > 429496729u ? 0 : p * 10) for (int d = -3; d <= 3; ++d) one(p + d);
    for (unsigned h : {0x10u, 0x100u, 0x1000u, 0xffu}) one(h);
    for (int i = 0; i < 30000 && more(0.9); ++i) one((unsigned)rnd()); one(~0u); }
  return done();
}
