// Executable contract of H01: serialization round trips.
#include "chan.h"
static void take(char* b, size_t n, Str* o) { *o = Str(b, n); delete[] b; }
template <class M> static void mat(int r, int c) {
  M m = rmat<M>(r, c); const Str want = expected(m), before = mbytes(m);
  rp::CASES("matrix " + std::to_string(r) + "x" + std::to_string(c) + " of " + std::to_string(sizeof(typename M::Scalar)) + "-byte scalars, bytes " + hexs(before));
  char* b = nullptr; size_t n = 0; EXPECT(ser::serializeToBuffer(m, &b, &n), "serialization fails"); EXPECT(n == want.size(), "the buffer is not header plus payload"); Str got; take(b, n, &got); EXPECT(got == want, "wrong bytes in the buffer"); EXPECT(mbytes(m) == before, "serialization changes the matrix");
  Str s = "old"; EXPECT(ser::serializeToString(m, &s), "string serialization fails"); EXPECT(s == want, "string and buffer differ");
  const int R = M::RowsAtCompileTime, C = M::ColsAtCompileTime; M t = rmat<M>(R < 0 ? (int)rp::rnd(0, 4) : R, C < 0 ? (int)rp::rnd(0, 4) : C); Exact e(want);
  EXPECT(ser::deSerializeFromBuffer(e.p.get(), e.n, &t), "deserialization fails"); EXPECT(t.rows() == r && t.cols() == c, "dimensions change"); EXPECT(mbytes(t) == before, "contents change"); EXPECT(Str(e.p.get(), e.n) == want, "the buffer is changed");
  M u = rmat<M>(R < 0 ? 1 : R, C < 0 ? 1 : C); EXPECT(ser::deSerializeFromString(s, &u), "string deserialization fails"); EXPECT(u.rows() == r && u.cols() == c && mbytes(u) == before, "contents change through a string");
}
template <class M> static void list(const std::vector<std::pair<int, int>>& d) {
  std::vector<M> v; Str want = u64(d.size()), what; for (auto x : d) { v.push_back(rmat<M>(x.first, x.second)); want += expected(v.back()); what += " " + std::to_string(x.first) + "x" + std::to_string(x.second); }
  rp::CASES("list of " + std::to_string(d.size()) + " matrices" + what + " of " + std::to_string(sizeof(typename M::Scalar)) + "-byte scalars");
  char* b = nullptr; size_t n = 0; EXPECT(ser::serializeToBuffer(v, &b, &n), "serialization fails"); EXPECT(n == want.size(), "the buffer has another size"); Str got; take(b, n, &got); EXPECT(got == want, "wrong bytes in the buffer");
  Str s; EXPECT(ser::serializeToString(v, &s), "string serialization fails"); EXPECT(s == want, "string and buffer differ");
  for (int k = 0; k < 2; ++k) {
    std::vector<M> t(rp::rnd(0, 3)); Exact e(want); if (k) { EXPECT(ser::deSerializeFromString(s, &t), "string deserialization fails"); } else { EXPECT(ser::deSerializeFromBuffer(e.p.get(), e.n, &t), "deserialization fails"); }
    EXPECT(t.size() == v.size(), "the number of matrices changes"); for (size_t i = 0; i < v.size(); ++i) EXPECT(t[i].rows() == v[i].rows() && t[i].cols() == v[i].cols() && mbytes(t[i]) == mbytes(v[i]), "a matrix of the list changes");
  }
}
static void img(int type, int r, int c) {
  cv::Mat m(r, c, type); const size_t pb = m.elemSize() * r * c; Str b0 = rbytes(pb); if (pb) memcpy(m.data, b0.data(), pb); const Str want = header(r, c, m.depth(), m.channels()) + b0;
  rp::CASES("image " + std::to_string(r) + "x" + std::to_string(c) + " of depth " + std::to_string(m.depth()) + " with " + std::to_string(m.channels()) + " channels, bytes " + hexs(b0));
  char* b = nullptr; size_t n = 0; EXPECT(ser::serializeToBuffer(m, &b, &n), "serialization fails"); EXPECT(n == want.size(), "the buffer is not header plus payload"); Str got; take(b, n, &got); EXPECT(got == want, "wrong bytes in the buffer");
  Str s; EXPECT(ser::serializeToString(m, &s), "string serialization fails"); EXPECT(s == want, "string and buffer differ");
  for (int k = 0; k < 3; ++k) {
    cv::Mat t; if (k == 1) t = cv::Mat::ones(3, 2, CV_8UC1); if (k == 2) t = cv::Mat(r, c, type); Exact e(want); EXPECT(k == 1 ? ser::deSerializeFromString(s, &t) : ser::deSerializeFromBuffer(e.p.get(), e.n, &t), "deserialization fails");
    EXPECT(t.rows == r && t.cols == c && t.dims == 2, "dimensions change"); EXPECT(t.depth() == m.depth(), "element type changes"); EXPECT(t.channels() == m.channels(), "channel count changes"); EXPECT(t.isContinuous() && Str((char*)t.data, pb) == b0, "contents change");
  }
  EXPECT(m.rows == r && m.cols == c && m.type() == type && Str((char*)m.data, pb) == b0, "serialization changes the image");
}
template <class T> static void scalar(T v) {
  Str w((char*)&v, sizeof v); rp::CASES("scalar of " + std::to_string(sizeof v) + " bytes " + hexs(w)); char* b = nullptr; size_t n = 0; EXPECT(ser::serializeToBuffer(v, &b, &n), "serialization fails"); EXPECT(n == sizeof(T), "the buffer has another size"); Str got; take(b, n, &got); EXPECT(got == w, "wrong bytes");
  Exact e(w); T t; memset(&t, 0x5a, sizeof t); EXPECT(ser::deSerializeFromBuffer(e.p.get(), e.n, &t), "deserialization fails"); EXPECT(!memcmp(&t, w.data(), sizeof t), "the value changes");
}
template <class T> static T rsc() { T v; Str b = rbytes(sizeof v); memcpy(&v, b.data(), sizeof v); return v; }
template <class S> static void shapes(int r, int c) {
  typedef Eigen::Matrix<S, -1, -1> D; typedef Eigen::Matrix<S, 3, -1> F; typedef Eigen::Matrix<S, -1, 2> G; typedef Eigen::Matrix<S, -1, 1> V; typedef Eigen::Matrix<S, 2, 3> X;
  mat<D>(r, c); mat<F>(3, c); mat<G>(r, 2); mat<V>(r, 1); mat<X>(2, 3);
  std::vector<std::pair<int, int>> d, f; for (int k = rp::rnd(0, 4); k > 0; --k) { d.push_back({rp::rnd(0, 5), rp::rnd(0, 5)}); f.push_back({3, rp::rnd(0, 5)}); } list<D>(d); list<F>(f); list<D>({{r, c}, {c, r}});
}
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("h01"); FLAGS_minloglevel = 4;
  bool first = true;
  while (rp::more() || first) {
    int r = first ? 3 : rp::rnd(0, rp::rnd(0, 9) ? 7 : 70), c = first ? 2 : rp::rnd(0, rp::rnd(0, 9) ? 7 : 70); first = false;
    shapes<double>(r, c); shapes<float>(r, c); shapes<int>(r, c); shapes<unsigned char>(r, c); mat<Eigen::Matrix<short, -1, -1>>(r, c); mat<Eigen::Matrix<signed char, -1, -1>>(r, c); mat<Eigen::Matrix<unsigned short, -1, -1>>(r, c);
    for (int d = 0; d < 7; ++d) img(CV_MAKETYPE(d, rp::rnd(0, 9) ? (int)rp::rnd(1, 5) : (int)rp::rnd(1, 512)), r, c);
    scalar(rsc<double>()); scalar(rsc<float>()); scalar(rsc<int>()); scalar(rsc<unsigned>()); scalar(rsc<uint64_t>()); scalar(rsc<unsigned char>()); scalar(rsc<int64_t>());
  }
  return rp::done();
}
