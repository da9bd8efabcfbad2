// Executable contract of R01: fixed-point and floating-point remap tables.
#include <opencv2/core/core.hpp>
#include <opencv2/imgproc/imgproc.hpp>
#include "common.h"
namespace aslam { void convertMapsLegacy(cv::InputArray, cv::InputArray, cv::OutputArray, cv::OutputArray, int, bool); }
static cv::Mat alloc(int h, int w, int type, bool part) {
  if (!part) return cv::Mat(h, w, type);
  cv::Mat big(h + 2, w + 3, type); big.setTo(cv::Scalar::all(77)); return big(cv::Rect(1, 1, w, h));
}
static float coord() {
  switch (rp::rnd(0, 7)) {
    case 0: return rp::rndi(-64 * 40, 64 * 40) / 64.f;                     // ties
    case 1: return rp::rndd(-70000, 70000);
    case 2: return rp::rndi(-5, 5);
    case 3: return rp::rnd(0, 1) ? 32767.f + rp::rndi(-3, 3) / 64.f : -32768.f + rp::rndi(-3, 3) / 64.f;
    case 4: return rp::rndd(-2e7, 2e7);
    case 5: return rp::rndi(-40, 40) / 2.f;
    default: return rp::rndd(-200, 2000);
  }
}
static long even(double v) { double f = std::floor(v), d = v - f; long i = long(f); return d > .5 || (d == .5 && i % 2 != 0) ? i + 1 : i; }
static long clampl(long v) { return v < -32768 ? -32768 : v > 32767 ? 32767 : v; }
int main(int argc, char** argv) {
  rp::init(argc, argv); cv::setNumThreads(1); cv::redirectError([](int, const char*, const char*, const char*, int, void*) { return 0; });
  while (rp::more()) {
    int h = rp::rnd(1, 6), w = rp::rnd(1, 9), kind = rp::rnd(0, 3), dsts[] = {-1, 0, CV_16SC2, CV_32FC1, CV_32FC2}, dst = dsts[rp::rnd(0, 4)]; bool nn = rp::rnd(0, 1), fixed = kind < 2; int ft = rp::rnd(0, 1) ? CV_16UC1 : CV_16SC1; bool none = kind == 1 && nn;
    cv::Mat a, b; 
    if (fixed) {
      a = alloc(h, w, CV_16SC2, rp::rnd(0, 2) == 0); if (!none) b = alloc(h, w, ft, rp::rnd(0, 2) == 0);
      for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { a.at<cv::Vec2s>(y, x) = cv::Vec2s(short(rp::rnd(0, 3) ? rp::rndi(-300, 3000) : rp::rndi(-32768, 32767)), short(rp::rndi(-32768, 32767))); if (!none) { if (ft == CV_16UC1) b.at<ushort>(y, x) = ushort(rp::rnd(0, 3) ? rp::rnd(0, 1023) : rp::rnd(0, 65535)); else b.at<short>(y, x) = short(rp::rnd(0, 1023)); } }
    } else if (kind == 2) {
      a = alloc(h, w, CV_32FC1, rp::rnd(0, 2) == 0); b = alloc(h, w, CV_32FC1, rp::rnd(0, 2) == 0); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { a.at<float>(y, x) = coord(); b.at<float>(y, x) = coord(); }
    } else { a = alloc(h, w, CV_32FC2, rp::rnd(0, 2) == 0); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) a.at<cv::Vec2f>(y, x) = cv::Vec2f(coord(), coord()); }
    bool swapped = fixed && !none && rp::rnd(0, 1); int D = dst > 0 ? dst : fixed ? CV_32FC2 : CV_16SC2; bool two = D == CV_32FC1 || (D == CV_16SC2 && !nn);
    // The two listed findings (known_findings.json): the proof reports them, running them writes through a null pointer or reads an undefined result.
    if ((nn && D == CV_32FC1) || (fixed && !none && ft == CV_16SC1 && D == CV_16SC2 && !nn)) continue;
    cv::Mat d1, d2; if (rp::rnd(0, 1)) { d1 = alloc(h, w, D, rp::rnd(0, 1)); d2 = alloc(h, w, D == CV_32FC1 ? CV_32FC1 : CV_16UC1, rp::rnd(0, 1)); d1.setTo(cv::Scalar::all(99)); d2.setTo(cv::Scalar::all(99)); }
    cv::Mat ka = a.clone(), kb = b.clone();
    { char s[200]; snprintf(s, sizeof s, "%dx%d maps %d+%d%s to %d%s%s%s", h, w, a.type(), none ? -1 : b.data ? b.type() : -1, swapped ? " swapped" : "", dst, nn ? " nearest" : "", a.isContinuous() ? "" : " part of a matrix", d1.data ? " into given results" : ""); rp::CASES(s); }
    if (swapped) aslam::convertMapsLegacy(b, a, d1, d2, dst, nn); else aslam::convertMapsLegacy(a, none ? cv::Mat() : b, d1, d2, dst, nn);
    EXPECT(d1.type() == D && d1.rows == h && d1.cols == w, "the first result has another type or size"); EXPECT((d2.data != nullptr) == two && (!two || (d2.type() == (D == CV_32FC1 ? CV_32FC1 : CV_16UC1) && d2.rows == h && d2.cols == w)), "the second result has another type or size");
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
      double X[2]; long I[2] = {0, 0}, F = 0;
      if (fixed) { cv::Vec2s v = ka.at<cv::Vec2s>(y, x); F = none ? 0 : ft == CV_16UC1 ? kb.at<ushort>(y, x) : kb.at<short>(y, x); I[0] = v[0]; I[1] = v[1]; X[0] = v[0] + (F % 1024 % 32) / 32.; X[1] = v[1] + (F % 1024 / 32) / 32.; }
      else if (kind == 2) { X[0] = ka.at<float>(y, x); X[1] = kb.at<float>(y, x); } else { X[0] = ka.at<cv::Vec2f>(y, x)[0]; X[1] = ka.at<cv::Vec2f>(y, x)[1]; }
      if (D == CV_16SC2) {
        cv::Vec2s v = d1.at<cv::Vec2s>(y, x);
        if (fixed) { EXPECT(v[0] == I[0] && v[1] == I[1], "the integer coordinates are not kept"); if (two) EXPECT(d2.at<ushort>(y, x) == F, "the table of fractions is not kept"); }
        else if (nn) EXPECT(v[0] == clampl(even(X[0])) && v[1] == clampl(even(X[1])), "the coordinate is not rounded to the nearest pixel");
        else { long q[2] = {even(X[0] * 32), even(X[1] * 32)}; EXPECT(v[0] == clampl(q[0] >> 5) && v[1] == clampl(q[1] >> 5), "wrong integer part"); EXPECT(d2.at<ushort>(y, x) == (q[1] & 31) * 32 + (q[0] & 31), "wrong fractional table index"); }
      } else {
        double g[2]; if (D == CV_32FC2) { g[0] = d1.at<cv::Vec2f>(y, x)[0]; g[1] = d1.at<cv::Vec2f>(y, x)[1]; } else { g[0] = d1.at<float>(y, x); g[1] = d2.at<float>(y, x); }
        EXPECT((g[0] == X[0] && g[1] == X[1]) || (nn && fixed && g[0] == I[0] && g[1] == I[1]), "the coordinates are not returned");
      }
    }
    EXPECT(cv::countNonZero(a.reshape(1) != ka.reshape(1)) == 0 && (!b.data || cv::countNonZero(b.reshape(1) != kb.reshape(1)) == 0), "the maps are changed");
    if (rp::rnd(0, 30) == 0) {
      int types[] = {CV_8UC1, CV_32SC1, CV_64FC1, CV_32FC1, CV_16SC2, CV_16UC1, CV_32FC2, -1}, p = types[rp::rnd(0, 6)], q = types[rp::rnd(0, 7)]; bool ok = (p == CV_16SC2 && (q == CV_16UC1 || q == CV_16SC1)) || (q == CV_16SC2 && (p == CV_16UC1 || p == CV_16SC1)) || (p == CV_32FC1 && q == CV_32FC1) || (p == CV_32FC2 && q == -1);
      if (!ok) { bool thrown = false; try { cv::Mat e1, e2; aslam::convertMapsLegacy(cv::Mat::zeros(2, 2, p), q < 0 ? cv::Mat() : cv::Mat(cv::Mat::zeros(2, 2, q)), e1, e2, 0, false); } catch (const cv::Exception&) { thrown = true; } EXPECT(thrown, "unsupported maps are not refused"); }
    }
  }
  return rp::done();
}
