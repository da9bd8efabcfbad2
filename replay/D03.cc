// Executable contract of D03: descriptor means and spread.
#include "desc.h"
using namespace aslam::common::descriptor_utils;
static std::vector<Bytes> make(size_t n, size_t bytes) {
  std::vector<Bytes> v; Bytes base = rbytes(bytes); unsigned mode = rp::rnd(0, 4);
  for (size_t i = 0; i < n; ++i) { if (mode == 0) v.push_back(rbytes(bytes, 2)); else if (mode == 1) v.push_back(base); else if (mode == 2) { Bytes b = base; for (size_t k = rp::rnd(0, 6); k; --k) b[rp::rnd(0, bytes - 1)] ^= 1 << rp::rnd(0, 7); v.push_back(b); } else if (mode == 3) v.push_back(rbytes(bytes)); else v.push_back(i && rp::rnd(0, 1) ? v[rp::rnd(0, i - 1)] : rbytes(bytes)); }
  return v;
}
static void check(const std::vector<Bytes>& v, size_t bytes) {
  const size_t n = v.size(); std::string s = std::to_string(n) + " descriptors of " + std::to_string(bytes) + " bytes:"; for (size_t i = 0; i < n && i < 20; ++i) s += " " + hex(v[i]); rp::CASES(s);
  DescriptorsType D(bytes, n); for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < bytes; ++i) D(i, j) = v[j][i]; const DescriptorsType D0 = D;
  std::vector<size_t> cnt(8 * bytes, 0); for (auto& d : v) for (size_t k = 0; k < 8 * bytes; ++k) cnt[k] += bit(d, k);
  Bytes mean(bytes, 0); for (size_t k = 0; k < 8 * bytes; ++k) if (cnt[k] > n / 2) mean[k / 8] |= 1 << (k % 8);
  { DescriptorType m = DescriptorType::Constant(rp::rnd(0, 70), 0xff); descriptorMeanRoundedToBinaryValue(D, &m); EXPECT((size_t)m.size() == bytes && Bytes(m.data(), m.data() + bytes) == mean, "the rounded mean is not the majority of each bit"); }
  if (n > 0) {
    std::vector<std::unique_ptr<FeatureDescriptorRef>> own; std::vector<FeatureDescriptorRef*> f; for (auto& d : v) { own.emplace_back(new FeatureDescriptorRef((uint32_t)bytes)); memcpy(own.back()->data(), d.data(), bytes); f.push_back(own.back().get()); }
    FeatureDescriptorRef m((uint32_t)bytes); m.SetRandom(3); DescriptorMean(f, &m); EXPECT(Bytes(m.data(), m.data() + bytes) == mean, "DescriptorMean is not the majority of each bit");
    for (size_t j = 0; j < n; ++j) EXPECT(Bytes(f[j]->data(), f[j]->data() + bytes) == v[j], "DescriptorMean changes a descriptor");
    Eigen::VectorXd fm; floatDescriptorMean(D, &fm); EXPECT((size_t)fm.size() == 8 * bytes, "wrong size of the float mean"); for (size_t k = 0; k < 8 * bytes; ++k) EXPECT(std::fabs(fm(k) - (double)cnt[k] / n) < 1e-12, "the float mean is not the fraction of set bits");
    Eigen::VectorXf ff = Eigen::VectorXf::Ones(3); floatDescriptorMean(D, &ff); EXPECT((size_t)ff.size() == 8 * bytes, "wrong size of the float mean"); for (size_t k = 0; k < 8 * bytes; ++k) EXPECT(std::fabs(ff(k) - (float)cnt[k] / n) < 1e-6, "the float mean is not the fraction of set bits");
  }
  if (bytes % 16 == 0 && bytes <= 496) {
    if (n > 0) { size_t best = 0, bs = SIZE_MAX; for (size_t j = 0; j < n; ++j) { size_t t = 0; for (size_t i = 0; i < n; ++i) t += dist(v[i], v[j]); if (t < bs) { bs = t; best = j; } } size_t got = 12345; getIndexOfDescriptorClosestToMedian(D, &got); EXPECT(got == best, "not the first descriptor of minimal summed distance"); }
    double want = 0; if (n >= 2) { for (auto& d : v) want += dist(d, mean); want /= n; } 
    // the hamming kernel reads the mean in 16-byte words
    const double got = descriptorMeanAbsoluteDeviation(D); EXPECT(std::fabs(got - want) < 1e-9 * (1 + want), "the mean absolute deviation differs from its definition");
  }
  { double q = 0; if (n >= 2) { for (auto& d : v) for (size_t k = 0; k < 8 * bytes; ++k) { double x = bit(d, k) - (double)cnt[k] / n; q += x * x; } q = std::sqrt(q / n); } const double got = descriptorMeanStandardDeviation(D); EXPECT(std::fabs(got - q) < 1e-9 * (1 + q), "the standard deviation differs from its definition"); }
  if (n < 2) EXPECT(descriptorMeanAbsoluteDeviation(D) == 0 && descriptorMeanStandardDeviation(D) == 0, "the deviation of fewer than two descriptors is not zero");
  EXPECT(D == D0, "the descriptors change");
}
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("d03"); FLAGS_minloglevel = 3;
  for (size_t n = 0; n <= 9; ++n) for (size_t b : {16, 48, 64}) for (int k = 0; k < 4; ++k) check(make(n, b), b);
  for (size_t n = 1; n <= 6; ++n) for (size_t b : {1, 2, 3, 17}) check(make(n, b), b);
  // every pattern of one bit over few descriptors
  for (size_t n = 1; n <= 7; ++n) for (unsigned m = 0; m < (1u << n); ++m) { std::vector<Bytes> v(n, Bytes(16, 0)); size_t k = rp::rnd(0, 127); for (size_t i = 0; i < n; ++i) if (m >> i & 1) v[i][k / 8] |= 1 << (k % 8); check(v, 16); }
  while (rp::more()) { size_t b = rp::rnd(0, 3) ? 16 * rp::rnd(1, 5) : 16 * rp::rnd(1, 31); size_t n = rp::rnd(0, 12) ? rp::rnd(0, 12) : rp::rnd(0, 300); if (n * b > 6000) n = 6000 / b; check(make(n, b), b); }
  return rp::done();
}
