#include "common.h"
#include <aslam/common/hash-id.h>
#include <aslam/common/unique-id.h>
using namespace rp;
template <class Id> Id mk(const uint64_t w[2]) { aslam::HashId h(w); Id i; i.fromHashId(h); return i; }
static void get(const aslam::HashId& h, uint64_t* o) { h.toUint64(o); }
template <class Id> static void get(const Id& h, uint64_t* o) { aslam::HashId x; h.toHashId(&x); x.toUint64(o); }
template <> aslam::HashId mk<aslam::HashId>(const uint64_t w[2]) { return aslam::HashId(w); }
template <class Id> static void pairs(const uint64_t a[2], const uint64_t b[2], const uint64_t c[2]) {
  CASE("a=%016llx,%016llx b=%016llx,%016llx c=%016llx,%016llx", a[0], a[1], b[0], b[1], c[0], c[1]);
  Id x = mk<Id>(a), y = mk<Id>(b), z = mk<Id>(c);
  bool eq = a[0] == b[0] && a[1] == b[1];
  EXPECT((x == y) == eq, "equality"); EXPECT((x != y) == !eq, "inequality");
  EXPECT((int)(x < y) + (int)(y < x) + (int)eq == 1, "exactly one of less, equal, greater");
  EXPECT(!(x < x), "irreflexive"); EXPECT(!(x < y && y < z) || x < z, "transitive");
  EXPECT(x.isValid() == (a[0] != 0 || a[1] != 0), "validity");
  EXPECT(std::hash<Id>()(x) == std::hash<Id>()(mk<Id>(a)), "hash of equal ids");
  if (eq) EXPECT(std::hash<Id>()(x) == std::hash<Id>()(y), "hash of equal ids");
  uint64_t o[2]; Id k(x); get(k, o); EXPECT(o[0] == a[0] && o[1] == a[1], "copy construction");
  Id m = mk<Id>(b); m = x; get(m, o); EXPECT(o[0] == a[0] && o[1] == a[1], "assignment"); get(x, o); EXPECT(o[0] == a[0] && o[1] == a[1], "source of assignment");
  m = *&m; get(m, o); EXPECT(o[0] == a[0] && o[1] == a[1], "self-assignment");
  m.setInvalid(); EXPECT(!m.isValid(), "invalidated"); get(m, o); EXPECT(o[0] == 0 && o[1] == 0, "invalidated bits");
  Id d; EXPECT(!d.isValid(), "default is invalid");
}
int main(int c, char** v) {
  init(c, v);
  std::vector<uint64_t> sp = {0, 1, 2, 255, 256, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull};
  for (int i = 0; i < 400000 && more(); ++i) {
    uint64_t w[3][2];
    for (auto& x : w) for (auto& y : x) y = rnd(0, 2) ? sp[rnd(0, sp.size() - 1)] : rnd();
    for (int k = 1; k < 3; ++k) { if (rnd(0, 2) == 0) memcpy(w[k], w[0], 16); if (rnd(0, 2) == 0) w[k][rnd(0, 1)] ^= 1ull << rnd(0, 63); if (rnd(0, 3) == 0) { w[k][0] = w[0][1]; w[k][1] = w[0][0]; } }
    pairs<aslam::HashId>(w[0], w[1], w[2]);
    EXPECT((aslam::HashId(w[0]) > aslam::HashId(w[1])) == (aslam::HashId(w[1]) < aslam::HashId(w[0])), "greater is converse of less");
    pairs<aslam::FrameId>(w[0], w[1], w[2]); pairs<aslam::SensorId>(w[0], w[1], w[2]);
    aslam::Id A, B; A.fromHashId(aslam::HashId(w[0])); B.fromHashId(aslam::HashId(w[0]));
    EXPECT(std::hash<aslam::Id>()(A) == std::hash<aslam::Id>()(B), "hash of equal Ids");
    std::hash<std::pair<aslam::FrameId, aslam::FrameId>> hp;
    auto P = std::make_pair(mk<aslam::FrameId>(w[0]), mk<aslam::FrameId>(w[1])); auto Q = P; EXPECT(hp(P) == hp(Q), "pair hash");
  }
  return done();
}
