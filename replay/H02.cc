// Executable contract of H02: malformed channel data is refused.
#include "chan.h"
static const size_t esz[7] = {1, 1, 2, 2, 4, 4, 8};
typedef unsigned __int128 big;
struct H { uint32_t r, c, d, ch; };
template <class M> static bool fits(const H& h) { const int R = M::RowsAtCompileTime, C = M::ColsAtCompileTime; return (R < 0 || h.r == (uint32_t)R) && (C < 0 || h.c == (uint32_t)C) && h.d == (uint32_t)cv::DataType<typename M::Scalar>::depth && h.ch == 1; }
static H head(const Str& s, size_t o) { H h; memcpy(&h, s.data() + o, 16); return h; }
template <class M> static bool okmat(const Str& s) { if (s.size() < 16) return false; H h = head(s, 0); return fits<M>(h) && (big)h.r * h.c * sizeof(typename M::Scalar) == s.size() - 16; }
template <class M> static bool oklist(const Str& s) {
  if (s.size() < 8) return false; uint64_t n; memcpy(&n, s.data(), 8); size_t o = 8; if (n > s.size()) return false;
  for (uint64_t i = 0; i < n; ++i) { if (s.size() - o < 16) return false; H h = head(s, o); o += 16; if (!fits<M>(h)) return false; big m = (big)h.r * h.c * sizeof(typename M::Scalar); if (m > s.size() - o) return false; o += (size_t)m; }
  return o == s.size();
}
static bool okimg(const Str& s) { if (s.size() < 16) return false; H h = head(s, 0); return h.d < 7 && h.ch >= 1 && h.ch <= 512 && h.r <= 0x7fffffff && h.c <= 0x7fffffff && (big)h.r * h.c * h.ch * esz[h.d] == s.size() - 16; }
static void check(const char* what, const Str& s, bool ok, const std::function<void(const char*, size_t)>& f) {
  rp::CASES(Str(what) + " from " + std::to_string(s.size()) + " bytes " + hexs(s)); Exact e(s); int o = rp::outcome([&] { f(e.p.get(), e.n); });
  if (ok) { EXPECT(o == 0, "well-formed data is not accepted"); } else { EXPECT(o != 2, "memory outside the buffer or the target is accessed"); EXPECT(o != 3, "no answer"); EXPECT(o == 1, "malformed data is accepted"); }
}
template <class M> static void mat(const Str& s) {
  check("matrix", s, okmat<M>(s), [](const char* b, size_t n) { std::unique_ptr<M> m(new M); if (!ser::deSerializeFromBuffer(b, n, m.get())) throw 1; });
  check("matrix", s, okmat<M>(s), [](const char* b, size_t n) { std::unique_ptr<M> m(new M); if (!ser::deSerializeFromString(Str(b, n), m.get())) throw 1; });
}
template <class M> static void list(const Str& s) { check("list of matrices", s, oklist<M>(s), [](const char* b, size_t n) { std::vector<M> m; if (!ser::deSerializeFromBuffer(b, n, &m)) throw 1; }); }
static void img(const Str& s) {
  check("image", s, okimg(s), [](const char* b, size_t n) { cv::Mat m; if (!ser::deSerializeFromBuffer(b, n, &m)) throw 1; });
  check("image", s, okimg(s), [](const char* b, size_t n) { cv::Mat m(2, 2, CV_8UC1); if (!ser::deSerializeFromString(Str(b, n), &m)) throw 1; });
}
template <class T> static void scalar(size_t n) { check("scalar", Str(n, 7), n == sizeof(T), [](const char* b, size_t k) { T t; if (!ser::deSerializeFromBuffer(b, k, &t)) throw 1; }); }
static uint32_t odd() { static const uint32_t v[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 255, 256, 511, 512, 513, 514, 1024, 1025, 1 << 16, 1 << 29, 1 << 30, 1u << 31, 0x7fffffff, 0xffffffff, 0x80000001}; return rp::rnd(0, 3) ? v[rp::rnd(0, sizeof v / 4 - 1)] : (uint32_t)rp::rnd(); }
static Str broken(Str s, size_t hdr) {
  int k = rp::rnd(0, 6);
  if (k == 0) return s.substr(0, rp::rnd(0, s.size()));
  if (k == 1) return s + Str(rp::rnd(1, 40), (char)rp::rnd(0, 3));
  if (k == 2 && s.size() >= hdr + 16) { for (int n = rp::rnd(1, 3); n; --n) { uint32_t v = odd(); memcpy(&s[hdr + 4 * rp::rnd(0, 3)], &v, 4); } return s; }
  if (k == 3 && s.size() >= hdr + 16) { H h = head(s, hdr); int w = rp::rnd(0, 3); uint32_t* f = w == 0 ? &h.r : w == 1 ? &h.c : w == 2 ? &h.d : &h.ch; *f += rp::rnd(0, 1) ? 1 : -1; memcpy(&s[hdr], &h, 16); return s; }
  if (k == 4 && s.size() >= hdr + 16) { H h = head(s, hdr); std::swap(h.r, h.c); memcpy(&s[hdr], &h, 16); return s; }
  if (k == 5 && hdr == 8) { uint64_t n = rp::rnd(0, 4) ? rp::rnd(0, 6) : rp::rnd(0, 1) ? ~0ull : 1ull << rp::rnd(0, 63); memcpy(&s[0], &n, 8); return s; }
  return s;
}
// image headers whose payload size, taken modulo 2^64 or with the stored bits of the type only, looks right
static void crafted() {
  for (uint32_t ch : {0u, 513u, 1025u, 512u * 3 + 2}) for (int d : {0, 3, 6}) for (uint32_t c : {1u, 3u}) img(header(1, c, d, ch) + Str((size_t)c * ch * esz[d], 1));
  img(header(1u << 30, 1u << 30, 0, 16)); img(header(1u << 31, 1u << 31, 0, 4)); img(header(1u << 31, 1u << 30, 6, 1)); img(header(4, 4, 0, 1u << 31)); img(header(1u << 16, 1u << 16, 0, 1u << 31)); img(header(0, 5, 0, 0)); img(header(5, 0, 7, 1)); img(header(1, 1, 8, 1) + "x");
  list<Eigen::MatrixXd>(u64(2) + header(1, 1, 6, 1) + Str(8, 1)); list<Eigen::MatrixXd>(u64(1)); list<Eigen::MatrixXd>(Str(5, 0)); list<Eigen::MatrixXd>(Str()); list<Eigen::MatrixXd>(u64(~0ull)); list<Eigen::MatrixXd>(u64(1ull << 60) + Str(64, 0)); list<Eigen::MatrixXd>(u64(1) + header(2, 2, 6, 1) + Str(31, 1)); list<Eigen::MatrixXd>(u64(1) + header(1u << 31, 1u << 30, 6, 1)); list<Eigen::MatrixXd>(u64(0) + Str(3, 0)); list<Eigen::MatrixXd>(u64(1) + header(0, 0, 6, 1).substr(0, 15));
  mat<Eigen::MatrixXd>(header(1u << 31, 1u << 30, 6, 1)); mat<Eigen::MatrixXd>(header(1u << 31, 1u << 31, 6, 1)); mat<Eigen::VectorXd>(header(1u << 31, 1, 6, 1)); mat<Eigen::Matrix3d>(header(3, 3, 5, 1) + Str(36, 1)); mat<Eigen::Matrix3d>(header(9, 1, 6, 1) + Str(72, 1)); mat<Eigen::Matrix3d>(header(3, 3, 6, 2) + Str(72, 1)); mat<Eigen::Matrix3d>(header(4, 3, 6, 1) + Str(96, 1)); mat<Eigen::Matrix3d>(header(3, 3, 6, 1) + Str(73, 1)); mat<Eigen::Matrix3d>(header(3, 3, 6, 1) + Str(71, 1)); mat<Eigen::MatrixXi>(header(2, 2, 5, 1) + Str(16, 1)); mat<Eigen::Matrix<unsigned char, -1, -1>>(header(2, 2, 1, 1) + Str(4, 1)); mat<Eigen::Matrix<unsigned char, 48, -1>>(header(47, 2, 0, 1) + Str(94, 1)); mat<Eigen::Matrix2Xd>(header(3, 2, 6, 1) + Str(48, 1)); mat<Eigen::Matrix2Xd>(header(2, 0, 6, 1)); mat<Eigen::MatrixXd>(Str()); mat<Eigen::MatrixXd>(Str(15, 0)); mat<Eigen::MatrixXd>(header(0, 0, 6, 1) + Str(1, 0));
  for (size_t n = 0; n < 20; ++n) { scalar<double>(n); scalar<int>(n); scalar<unsigned char>(n); }
}
template <class M> static void random(int r, int c) {
  mat<M>(broken(expected(rmat<M>(r, c)), 0)); Str l; int n = rp::rnd(0, 3); l = u64(n); for (int i = 0; i < n; ++i) l += expected(rmat<M>(r, M::ColsAtCompileTime < 0 ? (int)rp::rnd(0, 3) : c)); list<M>(broken(l, 8));
}
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("h02"); FLAGS_minloglevel = 4; crafted();
  while (rp::more()) {
    int r = rp::rnd(0, 4), c = rp::rnd(0, 4); random<Eigen::MatrixXd>(r, c); random<Eigen::Matrix<unsigned char, -1, -1>>(r, c); random<Eigen::Matrix2Xd>(2, c); random<Eigen::Matrix<double, -1, 3>>(r, 3); random<Eigen::Matrix<int, 2, 2>>(2, 2); random<Eigen::VectorXf>(r, 1);
    int d = rp::rnd(0, 6), ch = rp::rnd(1, 4); img(broken(header(r, c, d, ch) + rbytes(r * c * ch * esz[d]), 0));
  }
  return rp::done();
}
