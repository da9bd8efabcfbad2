// M01: executable contract of track id assignment, on the compiled real code.
#include "../units/tracks.cc"
#include "common.h"
#include <map>
#include <set>
#include <thread>
using namespace aslam;
typedef std::vector<int> Ids;
static std::string show(const Ids& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? " " : "") + std::to_string(v[i]); return s + "]"; }
static void fill(VisualFrame* f, int n, const Ids* ids) {
  f->setKeypointMeasurements(Eigen::Matrix2Xd::Zero(2, n));
  if (ids) { Eigen::VectorXi v(n); for (int i = 0; i < n; ++i) v(i) = (*ids)[i]; f->setTrackIds(v); }
}
static Ids get(const VisualFrame& f) { const Eigen::VectorXi& v = f.getTrackIds(); return Ids(v.data(), v.data() + v.size()); }
static bool distinct(const Ids& v) { std::set<int> s; for (int i : v) if (i >= 0 && !s.insert(i).second) return false; return true; }
static int fresh = 0;      // every id below may have been handed out
static void run(const Ids& a, bool ha, const Ids& b, bool hb, const std::vector<std::pair<int, int>>& m, const std::string& what) {
  VisualFrame A, B; fill(&A, a.size(), ha ? &a : nullptr); fill(&B, b.size(), hb ? &b : nullptr);
  FrameToFrameMatches l; for (auto& p : m) l.emplace_back(p.first, p.second);
  std::string in = what + ": A" + (ha ? show(a) : " none " + std::to_string(a.size())) + " B" + (hb ? show(b) : " none " + std::to_string(b.size())) + " matches"; for (auto& p : m) in += " " + std::to_string(p.first) + "-" + std::to_string(p.second);
  Ids a0 = ha ? a : Ids(a.size(), -1), b0 = hb ? b : Ids(b.size(), -1); bool ok = true; std::set<int> ua, ub;
  for (auto& p : m) {
    if (p.first < 0 || p.first >= (int)a.size() || p.second < 0 || p.second >= (int)b.size()) { ok = false; break; }
    if (!ua.insert(p.first).second || !ub.insert(p.second).second) ok = false;
    if (a0[p.first] >= 0 && b0[p.second] >= 0 && a0[p.first] != b0[p.second]) ok = false;
  }
  int base = fresh; rp::CASES(in); SimpleTrackManager t;
  if (!ok) { if (rp::rnd(0, 3)) return; EXPECT(rp::refused([&] { t.applyMatchesToFrames(l, &A, &B); }), "invalid matches are not refused"); return; }
  t.applyMatchesToFrames(l, &A, &B);
  Ids x = get(A), y = get(B); int top = base; EXPECT(x.size() == a.size() && y.size() == b.size(), "number of ids changed");
  std::set<int> news;
  for (auto& p : m) {
    int u = x[p.first], v = y[p.second], u0 = a0[p.first], v0 = b0[p.second];
    EXPECT(u == v && u >= 0, "matched keypoints have ids " + std::to_string(u) + " and " + std::to_string(v));
    if (u0 >= 0) EXPECT(v == u0, "a track of A is not continued");
    if (v0 >= 0) EXPECT(u == v0, "a track of B is not continued");
    if (u0 < 0 && v0 < 0) { EXPECT(u >= base, "id " + std::to_string(u) + " was handed out before"); EXPECT(news.insert(u).second, "a new id is used for two tracks"); top = std::max(top, u + 1); }
  }
  for (size_t i = 0; i < x.size(); ++i) EXPECT(a0[i] >= 0 ? x[i] == a0[i] : ua.count(i) || x[i] == a0[i], "id of keypoint " + std::to_string(i) + " of A changed");
  for (size_t i = 0; i < y.size(); ++i) EXPECT(b0[i] >= 0 ? y[i] == b0[i] : ub.count(i) || y[i] == b0[i], "id of keypoint " + std::to_string(i) + " of B changed");
  bool pre = distinct(a0) && distinct(b0);
  for (auto& p : m) { for (size_t i = 0; i < a0.size(); ++i) if (a0[p.first] < 0 && b0[p.second] >= 0 && a0[i] == b0[p.second]) pre = false; for (size_t i = 0; i < b0.size(); ++i) if (b0[p.second] < 0 && a0[p.first] >= 0 && b0[i] == a0[p.first]) pre = false; }
  if (pre) EXPECT(distinct(x) && distinct(y), "two keypoints of a frame share a track");
  fresh = top;
}
static void random_case() {
  int na = rp::rnd(0, 7), nb = rp::rnd(0, 7); Ids a(na), b(nb); bool ha = rp::rnd(0, 4) > 0, hb = rp::rnd(0, 4) > 0;
  // ids that were handed out: fresh-20 .. fresh-1
  auto old = [&] { return rp::rnd(0, 5) == 0 ? 0 : std::max(0, fresh - 1 - (int)rp::rnd(0, 19)); };
  for (int& i : a) i = fresh && rp::rnd(0, 1) ? old() : -(int)rp::rnd(1, 2);
  for (int& i : b) i = fresh && rp::rnd(0, 1) ? old() : -(int)rp::rnd(1, 2);
  std::vector<std::pair<int, int>> m; std::vector<int> pa(na), pb(nb); for (int i = 0; i < na; ++i) pa[i] = i; for (int i = 0; i < nb; ++i) pb[i] = i;
  for (int i = na - 1; i > 0; --i) std::swap(pa[i], pa[rp::rnd(0, i)]);
  for (int i = nb - 1; i > 0; --i) std::swap(pb[i], pb[rp::rnd(0, i)]);
  int k = std::min(na, nb); k = k ? (int)rp::rnd(0, k) : 0;
  bool tidy = rp::rnd(0, 3) > 0;
  for (int i = 0; i < k; ++i) { m.emplace_back(pa[i], pb[i]); if (tidy && ha && hb && a[pa[i]] >= 0 && b[pb[i]] >= 0) b[pb[i]] = a[pa[i]]; }
  if (tidy) {       // no track twice
    std::set<int> s; for (int i = 0; i < na; ++i) if (a[i] >= 0 && !s.insert(a[i]).second) a[i] = -1;
    std::map<int, int> w; for (int i = 0; i < k; ++i) w[pb[i]] = pa[i];
    std::set<int> t; for (int i = 0; i < nb; ++i) if (b[i] >= 0 && (w.count(i) && a[w[i]] >= 0 ? (b[i] = a[w[i]], false) : s.count(b[i]) > 0)) b[i] = -1;
    for (int i = 0; i < nb; ++i) if (b[i] >= 0 && !t.insert(b[i]).second) b[i] = -1;
  }
  switch (rp::rnd(0, 11)) {
    case 0: if (!m.empty()) m.push_back(m[rp::rnd(0, m.size() - 1)]); break;
    case 1: if (!m.empty()) { auto p = m[rp::rnd(0, m.size() - 1)]; m.emplace_back(rp::rnd(0, std::max(na - 1, 0)), p.second); } break;
    case 2: m.emplace_back(na, 0); break;
    case 3: m.emplace_back(0, nb); break;
    case 4: m.emplace_back(-1, 0); break;
    case 5: if (!m.empty()) { auto p = m[rp::rnd(0, m.size() - 1)]; m.emplace_back(p.first, rp::rnd(0, std::max(nb - 1, 0))); } break;
    default: break;
  }
  run(a, ha, b, hb, m, "matches");
}
static void channel_case() {
  int n = rp::rnd(0, 6); bool h = rp::rnd(0, 1); Ids a(n); for (int& i : a) i = rp::rndi(-2, 30); VisualFrame f; fill(&f, n, h ? &a : nullptr);
  Eigen::VectorXi* v = TrackManager::createAndGetTrackIdChannel(&f); rp::CASES(std::string("id list, ") + (h ? "present " : "absent ") + show(a));
  EXPECT(v == f.getTrackIdsMutable() && v->size() == n, "not the list of the frame"); if (v->size() != n) return;
  for (int i = 0; i < n; ++i) EXPECT((*v)(i) == (h ? a[i] : -1), "wrong id");
}
static void provider_case() {
  size_t first = rp::rnd(0, 1) ? 0 : rp::rnd(0, 1000); ThreadSafeIdProvider<size_t> p(first); std::vector<std::vector<size_t>> got(3); std::vector<std::thread> th; int n = rp::rnd(1, 400); rp::CASES("provider, 3 threads, " + std::to_string(n) + " ids each");
  for (auto& g : got) th.emplace_back([&] { for (int i = 0; i < n; ++i) g.push_back(p.getNewId()); });
  for (auto& t : th) t.join();
  std::set<size_t> s; for (auto& g : got) for (size_t i : g) { EXPECT(i >= first, "provider: id below the first one"); EXPECT(s.insert(i).second, "provider: id " + std::to_string(i) + " handed out twice to " + std::to_string(n) + " x 3 requests"); }
  p.reset(); EXPECT(p.getNewId() == first, "provider: does not start over");
}
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("m01"); FLAGS_minloglevel = 3;
  fresh = 0; run({-1, -1, -1}, false, {-1, -1, -1}, false, {{0, 1}, {2, 0}}, "first frames");
  while (rp::more()) {
    random_case();
    channel_case();
    if (rp::rnd(0, 40) == 0) provider_case();
  }
  return rp::done();
}
