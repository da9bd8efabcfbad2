// Distortion models: published formulas over dual numbers of long double, and random points and coefficients.
#include <Eigen/Dense>
#include <glog/logging.h>
#include <memory>
#include <aslam/cameras/distortion-null.h>
#include <aslam/cameras/distortion-radtan.h>
#include <aslam/cameras/distortion-equidistant.h>
#include <aslam/cameras/distortion-fisheye.h>
#include "common.h"
using namespace aslam;
typedef long double L;
struct Du { L v; L d[6]; Du(L x = 0) : v(x) { for (L& e : d) e = 0; } };
inline Du operator+(const Du& a, const Du& b) { Du r(a.v + b.v); for (int i = 0; i < 6; ++i) r.d[i] = a.d[i] + b.d[i]; return r; }
inline Du operator-(const Du& a, const Du& b) { Du r(a.v - b.v); for (int i = 0; i < 6; ++i) r.d[i] = a.d[i] - b.d[i]; return r; }
inline Du operator*(const Du& a, const Du& b) { Du r(a.v * b.v); for (int i = 0; i < 6; ++i) r.d[i] = a.d[i] * b.v + a.v * b.d[i]; return r; }
inline Du operator/(const Du& a, const Du& b) { Du r(a.v / b.v); for (int i = 0; i < 6; ++i) r.d[i] = (a.d[i] - r.v * b.d[i]) / b.v; return r; }
inline Du ap(const Du& a, L f, L df) { Du r(f); for (int i = 0; i < 6; ++i) r.d[i] = df * a.d[i]; return r; }
inline Du sqrt_(const Du& a) { L s = sqrtl(a.v); return ap(a, s, 1 / (2 * s)); }
inline Du atan_(const Du& a) { return ap(a, atanl(a.v), 1 / (1 + a.v * a.v)); }
inline Du tan_(const Du& a) { L t = tanl(a.v); return ap(a, t, 1 + t * t); }
enum { RADTAN, EQUI, FISH, NUL };
static const char* const NAMES[] = {"radtan", "equidistant", "fisheye", "null"}; static const int NP[] = {4, 4, 1, 0};
// x, y: duals 0, 1; coefficients: duals 2..
inline void reference(int m, const Eigen::VectorXd& k, double x0, double y0, Du* ox, Du* oy) {
  Du x(x0), y(y0), c[4]; x.d[0] = 1; y.d[1] = 1; for (int i = 0; i < NP[m]; ++i) { c[i] = Du(k(i)); c[i].d[2 + i] = 1; }
  Du S = x * x + y * y;
  if (m == NUL) { *ox = x; *oy = y; return; }
  if (m == RADTAN) {
    Du rad = Du(1) + c[0] * S + c[1] * S * S; *ox = x * rad + Du(2) * c[2] * x * y + c[3] * (S + Du(2) * x * x); *oy = y * rad + Du(2) * c[3] * x * y + c[2] * (S + Du(2) * y * y); return;
  }
  if (m == FISH && (k(0) * k(0) < 1e-5)) { *ox = x; *oy = y; return; }
  if (S.v == 0) {                                       // the limit on the axis
    Du s = m == EQUI ? Du(1) : Du(2) * tan_(c[0] / Du(2)) / c[0]; *ox = s * x; *oy = s * y; return;
  }
  Du r = sqrt_(S), s;
  if (m == EQUI) { Du t = atan_(r), q = t * t; s = t * (Du(1) + q * (c[0] + q * (c[1] + q * (c[2] + q * c[3])))) / r; }
  else s = atan_(Du(2) * tan_(c[0] / Du(2)) * r) / (r * c[0]);
  *ox = x * s; *oy = y * s;
}
inline Eigen::VectorXd rparams(int m) {
  Eigen::VectorXd k(NP[m]); int how = rp::rnd(0, 5);
  for (int i = 0; i < NP[m]; ++i) k(i) = how == 0 ? 0. : how == 1 ? rp::rndd(-1, 1) : rp::rndd(-.3, .3);
  if (m == FISH) k(0) = how == 0 ? 0. : how == 1 ? (rp::rnd(0, 1) ? .5 : 1.5) : rp::rndd(.5, 1.5);
  return k;
}
inline std::shared_ptr<Distortion> make(int m, const Eigen::VectorXd& k) {
  if (m == RADTAN) return std::make_shared<RadTanDistortion>(k); if (m == EQUI) return std::make_shared<EquidistantDistortion>(k);
  if (m == FISH) return std::make_shared<FisheyeDistortion>(k); return std::make_shared<NullDistortion>();
}
inline Eigen::Vector2d rpoint() {
  double a = rp::rndd(0, 6.283185307179586), r;
  switch (rp::rnd(0, 6)) {
    case 0: r = 0; break;
    case 1: r = pow(10., rp::rndd(-13, -1)); break;
    case 2: { const double e[] = {1e-10, 1e-8, 1e-5, 1e-3, 0.0031622776601683794}; r = e[rp::rnd(0, 4)] * rp::rndd(.5, 1.5); break; }
    case 3: r = rp::rndd(0, 40); break;
    default: r = rp::rndd(0, 4);
  }
  Eigen::Vector2d p(r * cos(a), r * sin(a)); int z = rp::rnd(0, 9); if (z == 0) p(0) = 0; if (z == 1) p(1) = 0; if (z == 2) p(1) = p(0); return p;
}
inline void note(int m, const Eigen::VectorXd& k, const Eigen::Vector2d& p) {
  char b[600]; int n = snprintf(b, sizeof b, "%s", NAMES[m]); for (int i = 0; i < k.size(); ++i) n += snprintf(b + n, sizeof b - n, " %.17g", k(i)); snprintf(b + n, sizeof b - n, " at (%.17g, %.17g)", p(0), p(1)); rp::CASES(b);
}
inline bool near_(double a, L b, double tol) { return std::isfinite(a) && fabsl(a - b) <= tol * (1 + fabsl(b)); }
// inside the radius where the fisheye model uses the limit of its scale
inline bool limited(int m, const Eigen::Vector2d& p) { return m == FISH && p.squaredNorm() < 1.01e-5; }
