#include "common.h"
#include <aslam/common/hash-id.h>
#include <aslam/common/unique-id.h>
using namespace rp;
static const char* D = "0123456789abcdef";
static std::string text(const unsigned char* b) { std::string s; for (int i = 0; i < 16; ++i) { s += D[b[i] >> 4]; s += D[b[i] & 15]; } return s; }
template <class Id> static void one(const uint64_t w[2]) {
  unsigned char b[16]; memcpy(b, w, 16);
  CASES("id " + text(b));
  aslam::HashId h(w); Id id; id.fromHashId(h);
  EXPECT(h.hexString() == text(b), "text form"); EXPECT(id.hexString() == text(b), "text form (typed)");
  EXPECT(h.shortHex() == text(b).substr(0, 4), "short form"); EXPECT(id.shortHex() == text(b).substr(0, 4), "short form (typed)");
  uint64_t o[2]; h.toUint64(o); EXPECT(o[0] == w[0] && o[1] == w[1], "unchanged");
  aslam::HashId k; EXPECT(k.fromHexString(text(b)), "parse succeeds"); k.toUint64(o);
  EXPECT(o[0] == w[0] && o[1] == w[1], "parse of text");
  std::string up = text(b); for (auto& c : up) if (rnd(0, 1) && c >= 'a') c -= 32;
  CASES("text " + up);
  aslam::HashId m; EXPECT(m.fromHexString(up), "parse mixed case"); m.toUint64(o);
  EXPECT(o[0] == w[0] && o[1] == w[1], "parse mixed case value");
}
int main(int c, char** v) {
  init(c, v);
  for (int pos = 0; pos < 16; ++pos) for (int x = 0; x < 256; ++x) {
    unsigned char b[16]; for (int fillv : {0, 255, 0x5a}) { memset(b, fillv, 16); b[pos] = x; uint64_t w[2]; memcpy(w, b, 16); one<aslam::FrameId>(w); }
  }
  for (int i = 0; i < 20000 && more(); ++i) { uint64_t w[2] = {rnd(), rnd()}; if (i % 7 == 0) w[i & 1] = 0; one<aslam::NFramesId>(w); }
  for (int len = 0; len < 300; ++len) if (len != 32) for (char ch : {'0', 'f', 'z', ' '}) {
    CASE("length %d of '%c'", len, ch);
    uint64_t w[2] = {rnd(), rnd()}, o[2]; aslam::HashId h(w);
    bool r = h.fromHexString(std::string(len, ch)); h.toUint64(o);
    EXPECT(!r, "other length accepted"); EXPECT(o[0] == w[0] && o[1] == w[1], "other length changed the id");
  }
  return done();
}
