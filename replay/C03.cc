// Executable contract of C03: the distortion maps against the published formulas, validity, construction, cloning, comparison.
#include "dist.h"
#include <cmath>
static void near_point(const Eigen::Vector2d& g, const Du& x, const Du& y, int m, const Eigen::Vector2d& p, const char* what) {
  double tol = limited(m, p) ? 1e-7 : 1e-11; EXPECT(near_(g(0), x.v, tol) && near_(g(1), y.v, tol), what);
  // relative to the distance from the axis, so that points close to it count as well
  double rel = limited(m, p) ? 2e-5 : 1e-9; L n = sqrtl(x.v * x.v + y.v * y.v); EXPECT(fabsl(g(0) - x.v) <= rel * n + 1e-300 && fabsl(g(1) - y.v) <= rel * n + 1e-300, what);
}
static bool valid(int m, const Eigen::VectorXd& k) { if (m == NUL) return true; if (k.size() != NP[m]) return false; return m != FISH || std::fabs(k(0)) < 1e-16 || (k(0) >= .5 && k(0) <= 1.5); }
static Eigen::VectorXd anyparams(int m) {
  int n = rp::rnd(0, 3) ? NP[m] : rp::rnd(0, 6); Eigen::VectorXd k(n); for (int i = 0; i < n; ++i) k(i) = rp::rndd(-2, 2);
  if (m == FISH && n) { const double e[] = {0, 1e-17, -1e-17, 1e-16, 2e-16, .5, .49999999999, 1.5, 1.50000001, -.7, .25, 1.4999999, 1.0, -1.0, 3.0, 1e-3}; if (rp::rnd(0, 3)) k(0) = e[rp::rnd(0, 15)]; } return k;
}
static bool isvalid(int m, const Eigen::VectorXd& k) { return m == RADTAN ? RadTanDistortion::areParametersValid(k) : m == EQUI ? EquidistantDistortion::areParametersValid(k) : m == FISH ? FisheyeDistortion::areParametersValid(k) : NullDistortion::areParametersValid(k); }
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("c03"); FLAGS_minloglevel = 3;
  while (rp::more()) {
    int m = rp::rnd(0, 3); Eigen::VectorXd k = rparams(m), k2 = rparams(m); std::shared_ptr<Distortion> own = make(m, k2), d = make(m, k);
    EXPECT(d->getType() == (m == NUL ? Distortion::Type::kNoDistortion : m == EQUI ? Distortion::Type::kEquidistant : m == FISH ? Distortion::Type::kFisheye : Distortion::Type::kRadTan), "wrong distortion type"); EXPECT(d->getParameterSize() == NP[m], "wrong number of coefficients");
    for (int i = 0; i < 6; ++i) {
      Eigen::Vector2d p = i ? rpoint() : Eigen::Vector2d::Zero(), q = p; note(m, k, p); Du x, y; reference(m, k, p(0), p(1), &x, &y);
      d->distort(&q); near_point(q, x, y, m, p, "distort(point) is not the published formula");
      Eigen::Vector2d o(7e77, 7e77); d->distort(p, &o); EXPECT(o == q, "distort(point, out) differs from distort(point)"); Eigen::Matrix2d J; o = p; d->distort(&o, &J); EXPECT(o == q, "distort with Jacobian differs from distort without");
      o = p; own->distortUsingExternalCoefficients(&k, &o, nullptr); EXPECT(o == q, "given coefficients are not used"); o = p; d->distortUsingExternalCoefficients(nullptr, &o, nullptr); EXPECT(o == q, "stored coefficients are not used when none are given");
      if (i == 0) EXPECT(q == p, "the axis is not mapped to itself");
      if (m == FISH) { Eigen::Vector2d t; static_cast<FisheyeDistortion&>(*d).distortUsingExternalCoefficients<double, Eigen::VectorXd>(k, p, &t); near_point(t, x, y, m, p, "the template map is not the published formula"); }
      EXPECT(d->getParameters() == k && own->getParameters() == k2, "the coefficients changed");
      Eigen::Vector2d u1 = p, u2, u3 = p; d->undistort(&u1); d->undistort(p, &u2); own->undistortUsingExternalCoefficients(k, &u3); EXPECT((u1 == u2 || u1 != u1) && (u1 == u3 || u1 != u1), "the undistortion entry points differ");
    }
    for (int i = 0; i < 4; ++i) {
      Eigen::VectorXd a = anyparams(m); note(m, a, Eigen::Vector2d::Zero()); bool ok = valid(m, a), probe = rp::rnd(0, 11) == 0;      // probe: in a child process, where a refusal can be seen
      EXPECT(isvalid(m, a) == ok, "validity of coefficients differs from the documented ranges"); EXPECT(d->distortionParametersValid(a) == ok, "validity of coefficients differs from the documented ranges");
      std::shared_ptr<Distortion> e; if (m != NUL) { int r = probe ? rp::outcome([&] { make(m, a); }) : !ok; EXPECT((r == 0) == ok, "construction accepts exactly valid coefficients"); if (ok && r == 0) e = make(m, a); if (e) EXPECT(e->getParameters() == a, "construction does not store the coefficients"); }
      std::shared_ptr<Distortion> s = make(m, k); int r = probe ? rp::outcome([&] { s->setParameters(a); }) : !ok; if (m != NUL || a.size() == 0) { EXPECT((r == 0) == ok, "setParameters accepts exactly valid coefficients"); if (ok && r == 0) { s->setParameters(a); EXPECT(s->getParameters() == a, "setParameters does not store the coefficients"); } }
      if (probe && m != NUL && a.size() != NP[m]) { Eigen::Vector2d p(.1, .2); EXPECT(rp::outcome([&] { d->distortUsingExternalCoefficients(&a, &p, nullptr); }) != 0, "a wrong number of coefficients is accepted by distort"); EXPECT(rp::outcome([&] { d->undistortUsingExternalCoefficients(a, &p); }) != 0, "a wrong number of coefficients is accepted by undistort"); }
    }
    std::unique_ptr<Distortion> c(d->clone()); note(m, k, Eigen::Vector2d::Zero()); EXPECT(c.get() != d.get() && *c == *d && c->getParameters() == k && c->getType() == d->getType(), "a clone differs");
    for (int n = 0; n < 4; ++n) { Eigen::VectorXd b = n == m && rp::rnd(0, 1) ? k : rparams(n); std::shared_ptr<Distortion> e = make(n, b); EXPECT((*d == *e) == (n == m && b == k), "models compare equal exactly when model and coefficients are"); }
    for (int i = 0; i < NP[m]; ++i) { EXPECT(d->getParametersMutable()[i] == k(i), "getParametersMutable"); Eigen::VectorXd b = k; if (m != FISH) { b(i) += .125; EXPECT(!(*make(m, b) == *d), "models with different coefficients compare equal"); } }
  }
  return rp::done();
}
