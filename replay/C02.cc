// Executable contract of C02: the parameter Jacobian against the derivative of the published formula.
#include "dist.h"
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("c02"); FLAGS_minloglevel = 3;
  for (int m = 0; m < 4; ++m) {
    Eigen::VectorXd k = rparams(m); std::shared_ptr<Distortion> d = make(m, k); rp::CASE("%s: parameter Jacobian with stored coefficients", NAMES[m]);
    EXPECT(rp::outcome([&] { Eigen::Matrix<double, 2, Eigen::Dynamic> J; d->distortParameterJacobian(nullptr, Eigen::Vector2d(.3, .2), &J); }) == 0, "no coefficients given (stored ones are to be used): the call does not return");
  }
  while (rp::more()) {
    int m = rp::rnd(0, 3); Eigen::VectorXd k = rparams(m); std::shared_ptr<Distortion> own = make(m, rparams(m)), d = make(m, k);
    for (int i = 0; i < 8; ++i) {
      Eigen::Vector2d p = rpoint(); note(m, k, p); Eigen::Matrix<double, 2, Eigen::Dynamic> J(2, rp::rnd(0, 6)), J2; J.fill(7e77);
      own->distortParameterJacobian(&k, p, &J); d->distortParameterJacobian(nullptr, p, &J2);
      EXPECT(J.rows() == 2 && J.cols() == NP[m] && J2.cols() == NP[m], "the parameter Jacobian has the wrong size"); EXPECT(J == J2, "the Jacobian depends on where the coefficients come from"); EXPECT(d->getParameters() == k, "the coefficients changed");
      Du r[2]; reference(m, k, p(0), p(1), r, r + 1); double tol = limited(m, p) ? 1e-6 : 1e-9;
      for (int u = 0; u < 2; ++u) for (int v = 0; v < NP[m]; ++v) EXPECT(near_(J(u, v), r[u].d[2 + v], tol), "the parameter Jacobian is not the derivative of the distortion");
    }
  }
  return rp::done();
}
