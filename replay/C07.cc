// Executable contract of C07: camera rigs.
#include "../units/rig.cc"
#include "common.h"
#include <set>
using namespace aslam;
typedef std::vector<Camera::Ptr> CV;
static Camera::Ptr camera(std::vector<SensorId>& pool) {
  Distortion::UniquePtr d; if (rp::rnd(0, 2)) { Eigen::VectorXd k(4); k << rp::rndd(-.1, .1), rp::rndd(-.1, .1), rp::rndd(-.01, .01), rp::rndd(-.01, .01); d.reset(new RadTanDistortion(k)); } else d.reset(new NullDistortion());
  Eigen::VectorXd i(4); i << rp::rndd(100, 900), rp::rndd(100, 900), rp::rndd(1, 800), rp::rndd(1, 600);
  Camera::Ptr c(new PinholeCamera(i, 640, 480, d)); SensorId id; generateId(&id); c->setId(id); pool.push_back(id); return c;
}
static Transformation pose() { return Transformation(Quaternion(1, 0, 0, 0), Eigen::Vector3d(rp::rndd(-9, 9), rp::rndd(-9, 9), rp::rndd(-9, 9))); }
static bool same(const Transformation& a, const Transformation& b) { return a.getTransformationMatrix() == b.getTransformationMatrix(); }
struct Model { std::vector<Transformation> T; CV c; std::vector<SensorId> ids; };
static std::string what;
static std::vector<SensorId> pool;   // every id used in this history
static void check(NCamera& r, const Model& m, const char* when) {
  rp::CASES(what + when); const NCamera& k = r; size_t n = m.c.size();
  EXPECT(k.numCameras() == n && k.getNumCameras() == n && k.getCameraVector().size() == n && k.getTransformationVector().size() == n, "number of cameras");
  std::set<std::string> seen;
  for (size_t i = 0; i < n; ++i) {
    EXPECT(k.getCameraId(i) == m.ids[i] && k.getCamera(i).getId() == m.ids[i], "id of camera " + std::to_string(i));
    EXPECT(k.getCameraIndex(m.ids[i]) == (int)i, "an id does not map to the index of its camera: camera " + std::to_string(i) + " maps to " + std::to_string(k.getCameraIndex(m.ids[i])));
    EXPECT(k.hasCameraWithId(m.ids[i]), "camera " + std::to_string(i) + " is not known by its id");
    EXPECT(same(k.get_T_C_B(i), m.T[i]) && same(k.getTransformationVector()[i], m.T[i]) && same(k.get_T_C_B(m.ids[i]), m.T[i]), "transformation of camera " + std::to_string(i));
    EXPECT(&r.get_T_C_B_Mutable(i) == &k.get_T_C_B(i) && &r.get_T_C_B_Mutable(m.ids[i]) == &k.get_T_C_B(i), "mutable transformation of camera " + std::to_string(i));
    EXPECT(&k.getCamera(i) == m.c[i].get() && &r.getCameraMutable(i) == m.c[i].get() && r.getCameraShared(i) == m.c[i] && k.getCameraShared(i) == m.c[i] && k.getCameraVector()[i] == m.c[i], "camera " + std::to_string(i));
  }
  for (const SensorId& o : pool) { bool in = false; for (const SensorId& i : m.ids) in |= i == o; if (!in) EXPECT(k.getCameraIndex(o) == -1 && !k.hasCameraWithId(o), "an id no camera of the rig has maps to an index"); }
  SensorId u; generateId(&u); EXPECT(k.getCameraIndex(u) == -1 && !k.hasCameraWithId(u), "an unknown id maps to an index");
  if (rp::rnd(0, 400) == 0) { EXPECT(rp::refused([&] { k.get_T_C_B(u); }), "transformation of an unknown id"); EXPECT(rp::refused([&] { k.get_T_C_B(n); }) && rp::refused([&] { k.getCamera(n); }) && rp::refused([&] { k.getCameraId(n); }), "index beyond the rig"); }
}
static Model view(NCamera& r) { Model m; for (size_t i = 0; i < r.numCameras(); ++i) { m.T.push_back(r.getTransformationVector()[i]); m.c.push_back(r.getCameraVector()[i]); m.ids.push_back(r.getCameraVector()[i]->getId()); } return m; }
static bool geometry(const Camera& a, const Camera& b) { return a.getParameters() == b.getParameters() && a.imageWidth() == b.imageWidth() && a.imageHeight() == b.imageHeight() && a.getType() == b.getType(); }
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("c07"); FLAGS_minloglevel = 3;
  while (rp::more()) {
    size_t n = rp::rnd(0, 5); pool.clear(); what = std::to_string(n) + " cameras: "; Model m; TransformationVector T; for (size_t i = 0; i < n; ++i) { m.c.push_back(camera(pool)); m.ids.push_back(m.c[i]->getId()); m.T.push_back(pose()); T.push_back(m.T[i]); }
    NCameraId id; generateId(&id); bool cov = rp::rnd(0, 1); TransformationCovariance C = TransformationCovariance::Identity() * rp::rndd(1, 5);
    rp::CASES(what + "construction"); std::shared_ptr<NCamera> r(cov ? new NCamera(id, T, C, m.c, "rig") : new NCamera(id, T, m.c, "rig")); check(*r, m, "constructed");
    EXPECT(r->getId() == id && r->getDescription() == "rig" && r->has_T_G_B_fixed_localization_covariance() == cov, "fields of the rig");
    std::vector<std::pair<std::shared_ptr<NCamera>, Model>> all{{r, m}};
    for (int step = rp::rnd(1, 6); step-- > 0;) {
      size_t pick = rp::rnd(0, all.size() - 1); std::shared_ptr<NCamera> s = all[pick].first; Model& sm = all[pick].second; size_t k = sm.c.size(); int op = rp::rnd(0, 5);
      static const char* names[] = {"copied; ", "cloned; ", "cloned with new ids; ", "cloned without distortion; ", "camera replaced; ", "transformation set; "}; what += names[op]; rp::CASES(what);
      if (op < 4) {
        std::shared_ptr<NCamera> q(op == 0 ? new NCamera(*s) : op == 1 ? s->clone() : op == 2 ? s->cloneWithNewIds() : nullptr); if (op == 3) q = s->cloneRigWithoutDistortion();
        Model qm = view(*q); EXPECT(qm.c.size() == k, "number of cameras");
        for (size_t i = 0; i < k; ++i) {
          EXPECT(same(qm.T[i], sm.T[i]), "the pairing of transformations is lost"); EXPECT(qm.c[i] != sm.c[i], "cameras are shared");
          EXPECT(geometry(*qm.c[i], *sm.c[i]), "the pairing of cameras is lost"); EXPECT((op >= 2) == (qm.ids[i] != sm.ids[i]), "ids of the cameras");
          Distortion::Type want = op == 3 ? Distortion::Type::kNoDistortion : sm.c[i]->getDistortion().getType(); EXPECT(qm.c[i]->getDistortion().getType() == want, "distortion of the copy"); if (op != 3) EXPECT(qm.c[i]->getDistortion().getParameters() == sm.c[i]->getDistortion().getParameters(), "distortion of the copy");
        }
        EXPECT((op >= 2) == (q->getId() != s->getId()), "id of the rig"); EXPECT(q->getDescription() == s->getDescription(), "description of the rig");
        TransformationCovariance a, b; bool ha = s->get_T_G_B_fixed_localization_covariance(&a), hb = q->get_T_G_B_fixed_localization_covariance(&b); EXPECT(ha == hb && (!ha || a == b), "covariance of the rig");
        for (auto& i : qm.ids) pool.push_back(i); check(*q, qm, "the copy"); all.emplace_back(q, qm);
      } else if (k) {
        size_t i = rp::rnd(0, k - 1);
        if (op == 4) { Camera::Ptr c = camera(pool); SensorId old = sm.ids[i]; if (rp::rnd(0, 2) == 0) c->setId(old); s->setCamera(i, c); sm.c[i] = c; sm.ids[i] = c->getId(); if (c->getId() != old) EXPECT(s->getCameraIndex(old) == -1, "the id of a replaced camera is still known"); }
        else { sm.T[i] = pose(); s->set_T_C_B(i, sm.T[i]); }
      }
      for (auto& p : all) check(*p.first, p.second, "every rig afterwards");
    }
    if (rp::rnd(0, 300) == 0) { TransformationVector U = T; U.push_back(pose()); rp::CASES("unequal counts"); EXPECT(rp::refused([&] { NCamera x(id, U, m.c, ""); }), "unequal counts are accepted"); CV nul = m.c; nul.push_back(nullptr); EXPECT(rp::refused([&] { NCamera x(id, U, nul, ""); }), "a missing camera is accepted"); }
  }
  return rp::done();
}
