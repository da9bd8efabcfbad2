// Executable contract of A02: timers and statistics book each sample to its tag once.
#define ENABLE_TIMING 1
#define ENABLE_STATISTICS 1
#include <aslam/common/timer.h>
#include <glog/logging.h>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <thread>
#include "common.h"
using timing::Timing; using timing::TimerImpl; using statistics::Statistics; using statistics::StatsCollectorImpl;
struct Ref { size_t handle; std::vector<double> x; };
static std::map<std::string, Ref> T, S; static std::map<size_t, std::string> allT, allS;
static bool close(double a, double b) { return std::abs(a - b) <= 1e-9 * (1 + std::abs(a) + std::abs(b)); }
static double sum(const std::vector<double>& v) { double s = 0; for (double x : v) s += x; return s; }
static double var(const std::vector<double>& v) { size_t L = std::min<size_t>(100, v.size()); if (L < 2) return 0; double m = 0, q = 0; for (size_t i = v.size() - L; i < v.size(); ++i) m += v[i] / L; for (size_t i = v.size() - L; i < v.size(); ++i) q += (v[i] - m) * (v[i] - m); return q / (L - 1); }
static Ref& refT(const std::string& t) { size_t h = Timing::GetHandle(t); auto i = T.find(t); if (i == T.end()) { EXPECT(!allT.count(h), "a new tag got the handle of another tag"); allT[h] = t; i = T.emplace(t, Ref{h, {}}).first; } EXPECT(i->second.handle == h, "the handle of a tag changed"); return i->second; }
static Ref& refS(const std::string& t) { const bool known = S.count(t); EXPECT(Statistics::HasHandle(t) == known, "a tag is reported as known although it is not, or the reverse"); size_t h = Statistics::GetHandle(t); auto i = S.find(t); if (!known) { EXPECT(!allS.count(h), "a new tag got the handle of another tag"); allS[h] = t; i = S.emplace(t, Ref{h, {}}).first; } EXPECT(i->second.handle == h, "the handle of a tag changed"); EXPECT(Statistics::HasHandle(t), "a tag that was looked up is not known"); return i->second; }
static void checkT() {
  EXPECT(Timing::GetTimerImpls().size() == T.size(), "wrong number of tags");
  for (auto& e : T) {
    const std::string& t = e.first; size_t h = e.second.handle; auto& x = e.second.x; EXPECT(Timing::GetTag(h) == t, "the tag of a handle is not the one it was created for"); EXPECT(Timing::GetNumSamples(h) == x.size() && Timing::GetNumSamples(t) == x.size(), "tag '" + t + "' has " + std::to_string(Timing::GetNumSamples(h)) + " samples instead of " + std::to_string(x.size()));
    if (x.empty()) continue; EXPECT(close(Timing::GetTotalSeconds(h), sum(x)) && close(Timing::GetTotalSeconds(t), sum(x)), "wrong total"); EXPECT(close(Timing::GetMeanSeconds(h), sum(x) / x.size()) && close(Timing::GetMeanSeconds(t), sum(x) / x.size()), "wrong mean");
    double mn = *std::min_element(x.begin(), x.end()), mx = *std::max_element(x.begin(), x.end()); EXPECT(Timing::GetMinSeconds(h) == mn && Timing::GetMinSeconds(t) == mn, "wrong minimum"); EXPECT(Timing::GetMaxSeconds(h) == mx && Timing::GetMaxSeconds(t) == mx, "wrong maximum"); EXPECT(close(Timing::GetVarianceSeconds(h), var(x)) && close(Timing::GetVarianceSeconds(t), var(x)), "wrong variance");
  }
}
static void checkS() {
  EXPECT(Statistics::GetStatsCollectors().size() == S.size(), "wrong number of tags");
  for (auto& e : S) {
    const std::string& t = e.first; size_t h = e.second.handle; auto& x = e.second.x; EXPECT(Statistics::GetTag(h) == t, "the tag of a handle is not the one it was created for"); EXPECT(Statistics::GetNumSamples(h) == x.size() && Statistics::GetNumSamples(t) == x.size(), "tag '" + t + "' has " + std::to_string(Statistics::GetNumSamples(h)) + " samples instead of " + std::to_string(x.size()));
    EXPECT(Statistics::GetLastValue(h) == (x.empty() ? 0 : x.back()) && Statistics::GetLastValue(t) == (x.empty() ? 0 : x.back()), "wrong last value"); EXPECT(close(Statistics::GetTotal(h), sum(x)) && close(Statistics::GetTotal(t), sum(x)), "wrong total"); if (x.empty()) continue;
    EXPECT(close(Statistics::GetMean(h), sum(x) / x.size()) && close(Statistics::GetMean(t), sum(x) / x.size()), "wrong mean"); EXPECT(close(Statistics::GetVariance(h), var(x)) && close(Statistics::GetVariance(t), var(x)), "wrong variance");
    double mn = *std::min_element(x.begin(), x.end()), mx = *std::max_element(x.begin(), x.end()); EXPECT(Statistics::GetMin(h) == mn && Statistics::GetMin(t) == mn, "wrong minimum"); EXPECT(Statistics::GetMax(h) == mx && Statistics::GetMax(t) == mx, "wrong maximum");
    if (x.size() > 1) { double a = Statistics::GetMinDeltaTime(h), b = Statistics::GetMaxDeltaTime(h), m = Statistics::GetMeanDeltaTime(h), l = Statistics::GetLastDeltaTime(h); EXPECT(a <= m + 1e-12 && m <= b + 1e-12 && a <= l && l <= b, "inconsistent times between samples"); EXPECT(m == Statistics::GetMeanDeltaTime(t) && a == Statistics::GetMinDeltaTime(t) && b == Statistics::GetMaxDeltaTime(t) && l == Statistics::GetLastDeltaTime(t), "figures by tag and by handle differ"); if (m > 0) EXPECT(close(Statistics::GetHz(h), 1 / m) && close(Statistics::GetHz(t), 1 / m), "the rate is not the inverse of the mean time between samples"); }
    else { EXPECT(Statistics::GetLastDeltaTime(h) == 0 && Statistics::GetMeanDeltaTime(h) == 0, "a time between samples without two samples"); EXPECT(Statistics::GetHz(h) == -1, "a rate without two samples"); }
  }
}
static std::string anyTag() { static const char* t[] = {"a", "b", "ab", "", "a b", "A", "long tag with many characters", "a:b", "b#"}; return rp::rnd(0, 3) ? t[rp::rnd(0, 8)] : std::string("n") + std::to_string(rp::rnd(0, 60)); }
struct Live { std::unique_ptr<TimerImpl> t; std::string tag; size_t handle; bool on; };
static void history(int steps) {
  std::vector<Live> live; std::string h; std::map<size_t, std::vector<double>> stale;
  auto book = [&](Live& l, double dt) { auto i = T.find(l.tag); if (i != T.end() && i->second.handle == l.handle) i->second.x.push_back(dt); };
  // the time a destroyed timer books is not returned: read it back from the total
  auto bookUnknown = [&](Live& l, double before) { double dt = Timing::GetTotalSeconds(l.handle) - before; EXPECT(dt >= 0 && dt < 100, "a destroyed timer books an impossible time"); auto i = T.find(l.tag); if (i != T.end() && i->second.handle == l.handle) { auto& x = i->second.x; double mn = Timing::GetMinSeconds(l.handle), mx = Timing::GetMaxSeconds(l.handle); if (x.empty()) dt = mn; else if (mx > *std::max_element(x.begin(), x.end())) dt = mx; else if (mn < *std::min_element(x.begin(), x.end())) dt = mn; x.push_back(dt); } };
  for (int s = 0; s < steps; ++s) {
    std::string tag = anyTag(); int op = rp::rnd(0, 13); h += " " + std::to_string(op) + tag; if (h.size() > 1500) h = h.substr(h.size() - 1200); rp::CASES("operations" + h);
    if (op == 0) { bool st = rp::rnd(0, 1); Ref& r = refT(tag); live.push_back(Live{std::unique_ptr<TimerImpl>(st ? new TimerImpl(tag, true) : new TimerImpl(tag)), tag, r.handle, !st}); EXPECT(live.back().t->GetHandle() == r.handle, "a timer does not carry the handle of its tag"); EXPECT(live.back().t->IsTiming() == !st, "wrong running state after construction"); }
    else if (op <= 5 && !live.empty()) {
      size_t k = rp::rnd(0, live.size() - 1); Live& l = live[k];
      if (op == 1) { l.t->Start(); l.on = true; }
      else if (op == 2 || op == 3) { double dt = l.t->Stop(); if (l.on) { EXPECT(dt >= 0 && dt < 100, "impossible time"); book(l, dt); } else EXPECT(dt == 0, "a timer that does not run reports a time"); l.on = false; }
      else if (op == 4) { l.t->Discard(); l.on = false; }
      else { double before = Timing::GetTotalSeconds(l.handle); l.t.reset(); if (l.on) bookUnknown(l, before); live.erase(live.begin() + k); checkT(); continue; }
      EXPECT(l.t->IsTiming() == l.on, "wrong running state");
    } else if (op <= 9) { Ref& r = refS(tag); double x = rp::rnd(0, 1) ? double(rp::rndi(-9, 9)) : rp::rndd(-50, 50); switch (rp::rnd(0, 3)) { case 0: StatsCollectorImpl(tag).IncrementOne(); x = 1; break; case 1: { StatsCollectorImpl c(r.handle); EXPECT(c.GetHandle() == r.handle, "a collector does not carry its handle"); c.AddSample(x); break; } default: { StatsCollectorImpl c(tag); EXPECT(c.GetHandle() == r.handle, "a collector does not carry the handle of its tag"); c.AddSample(x); } } S[tag].x.push_back(x); }
    else if (op == 10) refT(tag); else if (op == 11) refS(tag);
    else if (op == 12 && rp::rnd(0, 15) == 0) { Timing::Reset(); T.clear(); EXPECT(Timing::GetTag(allT.empty() ? 0 : allT.begin()->first).empty(), "a tag survives a reset"); }
    else if (op == 13 && rp::rnd(0, 15) == 0) { Statistics::Reset(); S.clear(); }
    if (s % 4 == 0) { checkT(); checkS(); }
    EXPECT(Timing::GetTag(1u << 30).empty() && Statistics::GetTag(1u << 30).empty(), "an unknown handle has a tag");
  }
  for (auto& l : live) l.t->Discard(); checkT(); checkS();
}
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("a02"); FLAGS_minloglevel = 3;
  history(200); { rp::CASES("150 samples of one tag"); for (int i = 0; i < 150; ++i) { Ref& r = refS("w"); StatsCollectorImpl("w").AddSample(i); r.x.push_back(i); } checkS(); }
  { rp::CASES("four threads registering and booking"); std::vector<std::thread> th; for (int k = 0; k < 4; ++k) th.emplace_back([k] { for (int i = 0; i < 300; ++i) { StatsCollectorImpl("th" + std::to_string(i % 5)).AddSample(1); TimerImpl t("tt" + std::to_string(i % 7)); t.Stop(); } }); for (auto& t : th) t.join(); size_t n = 0, m = 0; std::set<size_t> hs; for (int i = 0; i < 5; ++i) n += Statistics::GetNumSamples("th" + std::to_string(i)); for (int i = 0; i < 7; ++i) { m += Timing::GetNumSamples("tt" + std::to_string(i)); hs.insert(Timing::GetHandle("tt" + std::to_string(i))); } EXPECT(n == 1200 && m == 1200, "samples were lost or doubled"); EXPECT(hs.size() == 7, "two tags share a handle"); Timing::Reset(); Statistics::Reset(); T.clear(); S.clear(); }
  while (rp::more()) { history(rp::rnd(5, 120)); if (allT.size() > 3000) break; }
  rp::done();
}
