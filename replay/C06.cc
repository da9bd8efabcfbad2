// Executable contract of C06: pinhole projection, back-projection, Jacobians, classification.
#include "../units/camera.cc"
#include "dist.h"
typedef Eigen::VectorXd V; typedef Eigen::Vector2d P2; typedef Eigen::Vector3d P3; typedef Eigen::Matrix<double, 2, Eigen::Dynamic> JP; typedef Eigen::Matrix<double, 2, 3> J3;
typedef ProjectionResult PR; typedef PR::Status St;
static std::unique_ptr<Distortion> mk(int m, const V& k) {
  Distortion* d = m == RADTAN ? static_cast<Distortion*>(new RadTanDistortion(k)) : m == EQUI ? static_cast<Distortion*>(new EquidistantDistortion(k)) : m == FISH ? static_cast<Distortion*>(new FisheyeDistortion(k)) : static_cast<Distortion*>(new NullDistortion());
  return std::unique_ptr<Distortion>(d);
}
static V rint_() { V i(4); i << rp::rndd(20, 900), rp::rndd(20, 900), rp::rndd(1, 800), rp::rndd(1, 600); return i; }
static St status(const PinholeCamera& c, const P2& k, double z) {
  bool in = k(0) >= 0 && k(1) >= 0 && k(0) < double(c.imageWidth()) && k(1) < double(c.imageHeight());
  return z > 1e-10 ? (in ? St::KEYPOINT_VISIBLE : St::KEYPOINT_OUTSIDE_IMAGE_BOX) : z < 0 ? St::POINT_BEHIND_CAMERA : St::PROJECTION_INVALID;
}
template <typename A, typename B> static bool same(const A& a, const B& b) { for (int i = 0; i < a.size(); ++i) if (a(i) != b(i) && !(a(i) != a(i) && b(i) != b(i))) return false; return true; }
struct Ref { L u, v; Du x, y; };
// value, and derivatives by the normalized point (duals 0, 1) and by the coefficients (2...)
static Ref ref(int m, const V& I, const V& k, const P3& p) { Ref r; reference(m, k, p(0) / p(2), p(1) / p(2), &r.x, &r.y); r.u = I(0) * r.x.v + I(2); r.v = I(1) * r.y.v + I(3); return r; }
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("c06"); FLAGS_minloglevel = 3;
  while (rp::more()) {
    int m = rp::rnd(0, 3); V k = rparams(m), own = rparams(m), I = rint_(), Io = rint_(); uint32_t W = rp::rnd(1, 800), H = rp::rnd(1, 600);
    Distortion::UniquePtr d(mk(m, own).release()); PinholeCamera c(Io, W, H, d);
    for (int it = 0; it < 8; ++it) {
      P2 n = rpoint(); double z = rp::rnd(0, 3) ? rp::rndd(.2, 20) : rp::rnd(0, 1) ? -rp::rndd(.2, 20) : (rp::rnd(0, 1) ? 1 : -1) * pow(10., rp::rndd(-12, -8)); P3 p(n(0) * z, n(1) * z, z); P2 nn(p(0) / z, p(1) / z);
      bool gi = rp::rnd(0, 1), gd = rp::rnd(0, 1), aj = rp::rnd(0, 1), ai = rp::rnd(0, 1), ad = rp::rnd(0, 1); const V &UI = gi ? I : Io, &UD = gd ? k : own;
      { char b[500]; snprintf(b, sizeof b, "%s point %.17g %.17g %.17g intrinsics %.9g %.9g %.9g %.9g image %ux%u given %d%d jacobians %d%d%d", NAMES[m], p(0), p(1), p(2), UI(0), UI(1), UI(2), UI(3), W, H, gi, gd, aj, ai, ad); rp::CASES(b); }
      Ref r = ref(m, UI, UD, p); double sc = 1000. * (1 + nn.norm() * nn.norm() * nn.norm() * nn.norm() * nn.norm()), tol = limited(m, nn) ? 1e-4 : 1e-9; J3 jp; JP ji, jd; P2 key;
      PR pr = c.project3Functional(p, gi ? &I : nullptr, gd ? &k : nullptr, &key, aj ? &jp : nullptr, ai ? &ji : nullptr, ad ? &jd : nullptr);
      EXPECT(fabsl(key(0) - r.u) <= tol * sc && fabsl(key(1) - r.v) <= tol * sc, "the projection does not follow the formula");
      EXPECT(pr.getDetailedStatus() == status(c, key, z) && bool(pr) == (status(c, key, z) == St::KEYPOINT_VISIBLE), "wrong classification");
      if (!limited(m, nn)) {
        double js = 1e-8 * sc * (1 + 1 / fabs(z)) * (1 + nn.norm());
        if (aj) for (int a = 0; a < 2; ++a) {
          const Du& q = a ? r.y : r.x; double f = UI(a); L e[3] = {f * q.d[0] / z, f * q.d[1] / z, -f * (q.d[0] * nn(0) + q.d[1] * nn(1)) / z};
          for (int b = 0; b < 3; ++b) EXPECT(fabsl(jp(a, b) - e[b]) <= js, "Jacobian in the point");
        }
        if (ad) { EXPECT(jd.cols() == NP[m] || m == NUL, "size of the distortion Jacobian"); for (int a = 0; a < 2; ++a) for (int b = 0; b < NP[m]; ++b) EXPECT(fabsl(jd(a, b) - UI(a) * (a ? r.y : r.x).d[2 + b]) <= 1e-8 * sc * (1 + nn.squaredNorm() * nn.squaredNorm()), "Jacobian in the distortion coefficients"); }
      }
      if (ai) { EXPECT(ji.cols() == 4, "size of the intrinsics Jacobian"); L e[2][4] = {{r.x.v, 0, 1, 0}, {0, r.y.v, 0, 1}}; for (int a = 0; a < 2; ++a) for (int b = 0; b < 4; ++b) EXPECT(fabsl(ji(a, b) - e[a][b]) <= tol * sc, "Jacobian in the intrinsics"); }
      // entry points with the stored parameters
      Ref s = ref(m, Io, own, p); P2 k3, k3j, k4, k4j, kf; J3 j3; Eigen::Matrix<double, 2, 4> j4; double w = rp::rnd(0, 1) ? 1 : rp::rndd(-2, 2); double sg = w < 0 ? -1 : 1; Eigen::Vector4d h; h << sg * p, w;
      PR a3 = c.project3(p, &k3), a3j = c.project3(p, &k3j, &j3), a4 = c.project4(h, &k4), a4j = c.project4(h, &k4j, &j4);
      EXPECT(fabsl(k3(0) - s.u) <= tol * sc && fabsl(k3(1) - s.v) <= tol * sc && k3j == k3 && k4 == k3 && k4j == k3, "the entry points differ from the formula");
      EXPECT(a3.getDetailedStatus() == status(c, k3, z) && a3j.getDetailedStatus() == a3.getDetailedStatus() && a4.getDetailedStatus() == a3.getDetailedStatus() && a4j.getDetailedStatus() == a3.getDetailedStatus(), "the entry points classify differently");
      J3 jr; c.project3Functional(p, nullptr, nullptr, &kf, &jr, nullptr, nullptr); EXPECT(j3 == jr && j4.leftCols(3) == sg * jr && j4.col(3).isZero(0), "the entry points' Jacobians differ"); c.project3Functional(p, nullptr, nullptr, &kf); EXPECT(kf == k3, "projection without Jacobians differs");
      if (m == FISH) EXPECT((c.project3Functional<double, FisheyeDistortion, V, V>(p, I, k, &kf), fabsl(kf(0) - ref(m, I, k, p).u) <= 1e-4 * sc), "template projection");
      if (m == NUL) { Ref t = ref(m, I, k, p); PR pt = c.project3Functional<double, NullDistortion, V, V>(p, I, k, &kf); EXPECT(fabsl(kf(0) - t.u) <= 1e-9 * sc && fabsl(kf(1) - t.v) <= 1e-9 * sc && pt.getDetailedStatus() == status(c, kf, z), "template projection"); }
      // back-projection
      P2 px(rp::rndd(-20, W + 20.), rp::rndd(-20, H + 20.)); P3 b3; Eigen::Vector4d b4; P2 un((px(0) - Io(2)) / Io(0), (px(1) - Io(3)) / Io(1)), e = un; bool ok = c.backProject3(px, &b3); c.getDistortion().undistort(&e);
      EXPECT(ok && c.backProject4(px, &b4) && b3(2) == 1 && same(b4.head<3>(), b3) && b4(3) == 0, "rays have unit depth"); if (m == NUL || (e.allFinite() && e.norm() < 20 && (m == FISH || (un.norm() < .6 && own.cwiseAbs().maxCoeff() < .31)))) EXPECT((b3.head<2>() - e).norm() <= 1e-9 * (1 + e.norm()), "the ray is not the undistorted normalized pixel");
      if (m == NUL) { P2 back; PR q = c.project3(b3, &back); EXPECT((back - px).norm() <= 1e-9 *  (1 + px.norm() + Io.norm()) && q.getDetailedStatus() == status(c, back, 1), "projecting the back-projected pixel does not return it"); }
      P2 kp = rp::rnd(0, 2) ? px : P2(rp::rnd(0, 1) ? 0 : W, rp::rnd(0, 1) ? 0 : H); EXPECT(c.isKeypointVisible(kp) == (status(c, kp, 1) == St::KEYPOINT_VISIBLE), "visibility");
      double g = rp::rnd(0, 20); if (2 * g < W && 2 * g < H) { P2 q(rp::rnd(0, W), rp::rnd(0, H)); EXPECT(c.isKeypointVisibleWithMargin(q, g) == (q(0) >= g && q(1) >= g && q(0) < W - g && q(1) < H - g), "visibility with a margin"); }
    }
    // lists, copies, parameters
    int N = rp::rnd(0, 6); Eigen::Matrix3Xd X(3, N); Eigen::Matrix2Xd K(2, rp::rnd(0, 8)); std::vector<PR> res(rp::rnd(0, 9)); for (int i = 0; i < N; ++i) { P2 n = rpoint(); double z = rp::rndd(-3, 9); X.col(i) << n(0) * z, n(1) * z, z; }
    c.project3Vectorized(X, &K, &res); EXPECT(K.cols() == N && int(res.size()) == N, "list sizes"); Eigen::Matrix3Xd B(3, 2); std::vector<unsigned char> sc; P2 one; for (int i = 0; i < N; ++i) { PR a = c.project3(P3(X.col(i)), &one); EXPECT(one == K.col(i) && a.getDetailedStatus() == res[i].getDetailedStatus(), "a list differs from single projections"); K.col(i) = P2(rp::rndd(0, W), rp::rndd(0, H)); }
    c.backProject3Vectorized(K, &B, &sc); EXPECT(B.cols() == N && int(sc.size()) == N, "list sizes"); for (int i = 0; i < N; ++i) { P3 b; bool ok = c.backProject3(P2(K.col(i)), &b); EXPECT(same(b, B.col(i)) && ok == bool(sc[i]), "a list differs from single back-projections"); }
    std::unique_ptr<Camera> o(c.clone()); EXPECT(o->getParameters() == Io && o->imageWidth() == W && o->imageHeight() == H && o->getDistortion().getParameters() == own && &o->getDistortion() != &c.getDistortion() && o->getDistortion().getType() == c.getDistortion().getType() && o->getId() == c.getId(), "clone");
    Eigen::Matrix3d M; M << Io(0), 0, Io(2), 0, Io(1), Io(3), 0, 0, 1; EXPECT(c.getCameraMatrix() == M, "camera matrix"); V bad(rp::rnd(0, 6)); for (int i = 0; i < bad.size(); ++i) bad(i) = rp::rndi(-1, 3); EXPECT(PinholeCamera::areParametersValid(bad) == (bad.size() == 4 && (bad.size() == 0 || bad.minCoeff() > 0)) && c.intrinsicsValid(bad) == PinholeCamera::areParametersValid(bad), "validity of intrinsics");
    Eigen::MatrixXd br; c.getBorderRays(br); double bx[8] = {0, 0, 0, W - 1., W - 1., W - 1., W * .5, W * .5}, by[8] = {0, H * .5, H - 1., 0, H * .5, H - 1., 0, H - 1.}; EXPECT(br.rows() == 4 && br.cols() == 8, "border rays"); for (int i = 0; i < 8; ++i) { P3 b; c.backProject3(P2(bx[i], by[i]), &b); EXPECT(same(br.col(i).head<3>(), b), "border rays"); }
  }
  return rp::done();
}
