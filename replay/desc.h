#pragma once
#include <aslam/common/descriptor-utils.h>
#include <aslam/common/feature-descriptor-ref.h>
#include <aslam/common/hamming.h>
#include <memory>
#include "common.h"
using namespace aslam::common;
typedef std::vector<unsigned char> Bytes;
// 16-byte aligned buffer
struct Buf { unsigned char* p; size_t n; explicit Buf(size_t s) : n(s) { if (posix_memalign((void**)&p, 16, s ? s : 16)) abort(); } Buf(const Bytes& b) : Buf(b.size()) { if (n) memcpy(p, b.data(), n); } ~Buf() { free(p); } Buf(const Buf&) = delete; Bytes get() const { return Bytes(p, p + n); } };
inline std::string hex(const Bytes& b) { std::string s; char t[4]; for (size_t i = 0; i < b.size() && i < 100; ++i) { snprintf(t, 4, "%02x", b[i]); s += t; } return s; }
inline Bytes rbytes(size_t n, int mode = -1) {
  Bytes b(n); if (mode < 0) mode = rp::rnd(0, 4);
  for (auto& x : b) x = mode == 0 ? 0 : mode == 1 ? 255 : mode == 2 ? (unsigned char)rp::rnd(0, 255) : mode == 3 ? (rp::rnd(0, 30) ? 0 : (unsigned char)(1u << rp::rnd(0, 7))) : (rp::rnd(0, 30) ? 255 : (unsigned char)rp::rnd(0, 255));
  return b;
}
inline bool bit(const Bytes& b, size_t k) { return b[k / 8] >> (k % 8) & 1; }
inline size_t dist(const Bytes& a, const Bytes& b) { size_t d = 0; for (size_t k = 0; k < 8 * a.size(); ++k) d += bit(a, k) != bit(b, k); return d; }
