#pragma once
#include <glog/logging.h>
#include <aslam/common/channel-serialization.h>
#include <memory>
#include "common.h"
extern "C" const char* __asan_default_options() { return "allocator_may_return_null=1:detect_leaks=0"; }
namespace ser = aslam::internal;
typedef std::string Str;
inline Str hexs(const Str& b) { Str s; char t[4]; for (size_t i = 0; i < b.size() && i < 120; ++i) { snprintf(t, 4, "%02x", (unsigned char)b[i]); s += t; } return s; }
inline Str u32(uint32_t v) { return Str((const char*)&v, 4); }
inline Str u64(uint64_t v) { return Str((const char*)&v, 8); }
inline Str header(uint32_t r, uint32_t c, uint32_t d, uint32_t ch) { return u32(r) + u32(c) + u32(d) + u32(ch); }
inline Str rbytes(size_t n) { Str s(n, 0); int m = rp::rnd(0, 3); for (auto& c : s) c = m == 0 ? 0 : m == 1 ? (char)255 : (char)rp::rnd(0, 255); return s; }
// buffer of exactly n bytes, so that any access outside is reported
struct Exact { std::unique_ptr<char[]> p; size_t n; explicit Exact(const Str& s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); } };
template <class M> M rmat(int r, int c) { M m(r, c); Str b = rbytes(sizeof(typename M::Scalar) * r * c); if (b.size()) memcpy(m.data(), b.data(), b.size()); return m; }
template <class M> Str mbytes(const M& m) { return Str((const char*)m.data(), sizeof(typename M::Scalar) * m.rows() * m.cols()); }
template <class M> Str expected(const M& m) { return header(m.rows(), m.cols(), cv::DataType<typename M::Scalar>::depth, 1) + mbytes(m); }
