// Executable contract of C01: the point Jacobian against the derivative of the published formula.
#include "dist.h"
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("c01"); FLAGS_minloglevel = 3;
  while (rp::more()) {
    int m = rp::rnd(0, 3); Eigen::VectorXd k = rparams(m); std::shared_ptr<Distortion> own = make(m, rparams(m)), d = make(m, k);
    for (int i = 0; i < 8; ++i) {
      Eigen::Vector2d p = rpoint(); note(m, k, p); Eigen::Vector2d a = p, b = p, c = p; Eigen::Matrix2d J, J2; J.fill(7e77); J2.fill(-3e33);
      own->distortUsingExternalCoefficients(&k, &a, nullptr); own->distortUsingExternalCoefficients(&k, &b, &J); d->distort(&c, &J2);
      EXPECT(a == b && b == c, "the distorted point depends on the Jacobian or on where the coefficients come from"); EXPECT(J == J2, "the Jacobian depends on where the coefficients come from");
      Du r[2]; reference(m, k, p(0), p(1), r, r + 1); double tol = limited(m, p) ? 2e-4 : 1e-9;
      for (int u = 0; u < 2; ++u) for (int v = 0; v < 2; ++v) EXPECT(near_(J(u, v), r[u].d[v], tol), "the Jacobian is not the derivative of the distortion");
    }
  }
  return rp::done();
}
