// Executable contract of D01: Hamming distance.
#include "desc.h"
static void check(const Bytes& a, const Bytes& b) {
  rp::CASES("size " + std::to_string(a.size()) + " a " + hex(a) + " b " + hex(b));
  Buf x(a), y(b); const size_t want = dist(a, b); Hamming h;
  EXPECT((size_t)h(x.p, y.p, a.size()) == want, "the functor does not count the differing bits"); EXPECT((size_t)h(y.p, x.p, a.size()) == want, "the distance depends on the order");
  EXPECT((size_t)Hamming::evaluate(x.p, y.p, a.size()) == want, "evaluate does not count the differing bits");
  EXPECT(Hamming::PopcntofXORed(x.p, y.p, a.size() / 16) == want, "PopcntofXORed does not count the differing bits");
  EXPECT(Hamming::PopcntofXORed((const __m128i*)x.p, (const __m128i*)y.p, a.size() / 16) == want, "PopcntofXORed on words does not count the differing bits");
  FeatureDescriptorConstRef cx(x.p, a.size()), cy(y.p, b.size()); EXPECT(GetNumBitsDifferent(cx, cy) == want && GetNumBitsDifferent(cy, cx) == want, "GetNumBitsDifferent does not count the differing bits");
  FeatureDescriptorRef rx(x.p, a.size(), false), ry(y.p, b.size(), false); EXPECT(GetNumBitsDifferent(rx, ry) == want, "GetNumBitsDifferent on writable references does not count the differing bits");
  EXPECT(x.get() == a && y.get() == b, "a descriptor changes");
}
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("d01"); FLAGS_minloglevel = 3;
  for (int k = 0; k < 12; ++k) {
    size_t n = 16 * rp::rnd(1, 31), m = n; while (m == n) m = 16 * rp::rnd(k < 6 ? 1 : 0, 31); if (k == 10) m = n - 1; if (k == 11) m = n + 1;
    rp::CASE("unequal sizes %zu %zu", n, m); Buf a(rbytes(n)), b(rbytes(m)); FeatureDescriptorConstRef x(a.p, n), y(b.p, m); EXPECT(rp::refused([&] { GetNumBitsDifferent(x, y); }), "descriptors of unequal size are not refused");
    FeatureDescriptorRef v(a.p, n, false), w(b.p, m, false); EXPECT(rp::refused([&] { GetNumBitsDifferent(v, w); }), "descriptors of unequal size are not refused");
  }
  for (size_t n = 1; n <= 31; ++n) { check(rbytes(16 * n, 0), rbytes(16 * n, 1)); check(rbytes(16 * n, 2), rbytes(16 * n, 2)); Bytes a = rbytes(16 * n, 2), b = a; for (auto& x : b) x = ~x; check(a, b); }
  for (size_t k = 0; k < 48 * 8; ++k) { Bytes a = rbytes(48, 2), b = a; b[k / 8] ^= 1 << (k % 8); check(a, b); }
  for (int v = 0; v < 256; ++v) for (int w = 0; w < 256; w += 5) { Bytes a(16, v), b(16, w); check(a, b); }
  while (rp::more()) { size_t n = 16 * rp::rnd(1, 31); Bytes a = rbytes(n), b = rp::rnd(0, 2) ? rbytes(n) : a; if (rp::rnd(0, 1)) for (size_t k = rp::rnd(0, 8); k; --k) b[rp::rnd(0, n - 1)] ^= rp::rnd(0, 255); check(a, b); }
  return rp::done();
}
