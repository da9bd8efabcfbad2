// Executable contract of C04: undistortion of distorted points.
#include "dist.h"
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("c04"); FLAGS_minloglevel = 3;
  while (rp::more()) {
    int m = rp::rnd(0, 3); Eigen::VectorXd k = rparams(m); std::shared_ptr<Distortion> d = make(m, k), own = make(m, rparams(m));
    for (int i = 0; i < 6; ++i) {
      Eigen::Vector2d p = i ? rpoint() : Eigen::Vector2d::Zero(), q = p, o = p; note(m, k, p); double n = p.norm();
      if (m == FISH || m == NUL) {
        d->distort(&q); Eigen::Vector2d di = q, u = q; d->undistort(&u); if (m == FISH && k(0) != 0 && atan(2 * tan(k(0) / 2) * n) > 89 / 180. * 3.14159265358979 - 1e-9) continue;
        own->undistortUsingExternalCoefficients(k, &di); EXPECT(di == u, "given coefficients are not used");
        double tol = limited(m, p) && k(0) != 0 ? 1e-4 : 1e-9 * (1 + n * n); EXPECT((u - p).norm() <= tol * n, "undistorting the distorted point does not return the point");
      } else {
        if (i == 0) { o = p; d->undistort(&o); EXPECT(o == p, "the axis is not returned unchanged"); continue; }
        if (k.cwiseAbs().maxCoeff() > .31) k *= .3 / k.cwiseAbs().maxCoeff();
        if (m == RADTAN) { k(2) *= .1; k(3) *= .1; }
        if (n > .6) { p *= .6 / n; n = .6; } note(m, k, p); Eigen::Vector2d w = p; d->distortUsingExternalCoefficients(&k, &w, nullptr); Eigen::Vector2d u = w; d->undistortUsingExternalCoefficients(k, &u); Eigen::Vector2d e = u; d->distortUsingExternalCoefficients(&k, &e, nullptr);
        EXPECT((e - w).norm() <= 1.01e-4 * (m == EQUI ? 1 : 1) && (w.squaredNorm() < 1e-6 || (e - w).norm() <= 1e-6), "the undistorted point does not distort to the given point");
        if (m == EQUI && w.squaredNorm() < .99e-6) EXPECT(u == w || (u - p).norm() <= 1e-6, "points at the axis");
      }
    }
  }
  return rp::done();
}
