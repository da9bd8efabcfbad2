// Executable contract of D02: bit access.
#include "desc.h"
using namespace aslam::common::descriptor_utils;
static void one(const Bytes& a, size_t k) {
  rp::CASES("bit " + std::to_string(k) + " of " + hex(a) + " (" + std::to_string(a.size()) + " bytes)");
  Buf x(a); FeatureDescriptorRef r(x.p, a.size(), false); FeatureDescriptorConstRef c(x.p, a.size());
  EXPECT(GetBit(k, c) == bit(a, k), "GetBit reads another bit"); EXPECT(GetBit(k, r.ToConstRef()) == bit(a, k), "GetBit reads another bit"); EXPECT(x.get() == a, "GetBit changes the descriptor");
  Bytes w = a; w[k / 8] |= 1 << (k % 8); SetBit(k, &r); EXPECT(x.get() == w, "SetBit does not set exactly the addressed bit"); SetBit(k, &r); EXPECT(x.get() == w, "SetBit twice differs");
  Buf y(a); FeatureDescriptorRef f(y.p, a.size(), false); w = a; w[k / 8] ^= 1 << (k % 8); FlipBit(k, &f); EXPECT(y.get() == w, "FlipBit does not flip exactly the addressed bit"); FlipBit(k, &f); EXPECT(y.get() == a, "flipping twice does not restore");
  DescriptorType d(a.size()); for (size_t i = 0; i < a.size(); ++i) d(i) = a[i]; const DescriptorType d0 = d;
  EXPECT(getBit(k, d) == bit(a, k), "getBit reads another bit"); EXPECT(d == d0, "getBit changes the descriptor"); setBit(k, &d); Bytes g(d.data(), d.data() + d.size()); w = a; w[k / 8] |= 1 << (k % 8); EXPECT(g == w, "setBit does not set exactly the addressed bit");
}
static void refuse(size_t n, size_t k) {
  rp::CASE("bit %zu of %zu bytes", k, n); Buf x(Bytes(n, 0)); FeatureDescriptorRef r(x.p, n, false); DescriptorType d = DescriptorType::Zero(n);
  EXPECT(rp::refused([&] { GetBit(k, r.ToConstRef()); }), "GetBit beyond the descriptor is not refused"); EXPECT(rp::refused([&] { SetBit(k, &r); }), "SetBit beyond the descriptor is not refused"); EXPECT(rp::refused([&] { FlipBit(k, &r); }), "FlipBit beyond the descriptor is not refused");
  if (k <= 0xffffffffu) { EXPECT(rp::refused([&] { getBit(k, d); }), "getBit beyond the descriptor is not refused"); EXPECT(rp::refused([&] { setBit(k, &d); }), "setBit beyond the descriptor is not refused"); }
}
static void flipn(const Bytes& a, size_t n) { rp::CASES("flip " + std::to_string(n) + " random bits of " + hex(a)); Buf x(a); FeatureDescriptorRef r(x.p, a.size(), false); FlipNRandomBits(n, &r); EXPECT(dist(x.get(), a) == n, "FlipNRandomBits does not change exactly N distinct bits"); }
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("d02"); FLAGS_minloglevel = 3;
  for (size_t n : {1, 16, 48, 64}) for (size_t k : {8 * n, 8 * n + 1, 8 * n + 7, 8 * n + 8, 16 * n + 3}) refuse(n, k);
  refuse(48, 0xffffffffu); refuse(48, 0xfffffff8u); refuse(64, (size_t)1 << 32); refuse(64, ((size_t)1 << 35) + 5); refuse(64, SIZE_MAX); refuse(0, 0);
  for (size_t n : {1, 2, 3, 16, 48, 64}) for (size_t k = 0; k < 8 * n; ++k) { one(rbytes(n), k); one(rbytes(n, 0), k); one(rbytes(n, 1), k); }
  for (size_t n = 1; n <= 6; ++n) for (size_t k = 0; k < 8 * n; ++k) flipn(rbytes(n), k);
  while (rp::more()) { size_t n = rp::rnd(0, 20) ? rp::rnd(1, 96) : rp::rnd(1, 9000); Bytes a = rbytes(n); one(a, rp::rnd(0, 8 * n - 1)); one(a, 8 * n - 1 - rp::rnd(0, 7)); flipn(a, rp::rnd(0, 8 * n - 1)); }
  return rp::done();
}
