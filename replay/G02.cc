// Executable contract of G02: thinning keeps the strongest points, insertion with a minimum distance keeps the strongest neighbour.
#include "grid.h"
static void refuse(const std::string& w, std::function<void()> f) { rp::CASES(w); int o = rp::outcome(f); EXPECT(o == 1, o == 0 ? "accepted although not allowed" : "not refused cleanly"); }
static std::string dump(const Ref& r) { std::string s; for (auto& c : r) for (auto& p : c.second) s += str(p); return s; }
// is `now` the `lim` strongest of `old`?
static void strongest(const List& old, const List& now, size_t lim) {
  EXPECT(now.size() == std::min(old.size(), lim), "a cell holds " + std::to_string(now.size()) + " points after thinning " + std::to_string(old.size()) + " to " + std::to_string(lim));
  List o = sorted(old), n = sorted(now), gone; EXPECT(std::includes(o.begin(), o.end(), n.begin(), n.end(), lessp), "thinning keeps a point that was not there"); std::set_difference(o.begin(), o.end(), n.begin(), n.end(), std::back_inserter(gone), lessp);
  for (auto& a : now) for (auto& b : gone) EXPECT(!(a.weight < b.weight), "thinning drops " + str(b) + " but keeps " + str(a));
}
static List at(const Ref& r, std::pair<size_t, size_t> k) { auto i = r.find(k); return i == r.end() ? List() : i->second; }
static void thin(const Dim& d, Grid& g, const std::string& h) {
  Ref r = observe(d, g); size_t lim = rp::rnd(1, 5); rp::CASES(h + " points " + dump(r) + " thin " + std::to_string(lim)); size_t n = g.removeWeightedPointsFromOverfullCells(lim); Ref now = observe(d, g);
  for (auto& c : now) EXPECT(r.count(c.first), "thinning fills an empty cell"); for (auto& c : r) strongest(c.second, at(now, c.first), lim);
  EXPECT(n == total(r) - total(now), "thinning returns " + std::to_string(n) + " but removes " + std::to_string(total(r) - total(now)));
}
static void thinTotal(const Dim& d, Grid& g, const std::string& h) {
  Ref r = observe(d, g); size_t N = total(r), mx = rp::rnd(0, 3) ? std::max<size_t>(1, N ? rp::rnd(1, N + 2) : 1) : rp::rnd(1, 3); std::string w = h + " points " + dump(r) + " at most " + std::to_string(mx); rp::CASES(w);
  if (rp::rnd(0, 40) == 0) { int o = rp::outcome([&] { g.removePointsFromFullestCellsUntilSize(mx); }); EXPECT(o == 0, "thinning to a total fails"); }
  g.removePointsFromFullestCellsUntilSize(mx); Ref now = observe(d, g); EXPECT(total(now) == std::min(N, mx), "not exactly the allowed number of points remains"); size_t full = 0; for (auto& c : now) full = std::max(full, c.second.size());
  for (auto& c : now) EXPECT(r.count(c.first), "thinning fills an empty cell");
  for (auto& c : r) { List n = at(now, c.first); EXPECT(n.size() <= c.second.size(), "thinning adds points"); EXPECT(n.size() == c.second.size() || n.size() + 1 >= full, "points were taken from a cell that was not a fullest one"); strongest(c.second, n, n.size()); }
  if (N <= mx) EXPECT(same(r, now), "a grid within the maximum is changed");
}
static void one(const Dim& d, Grid& g, const std::string& h) {
  Ref r = observe(d, g); size_t full = 0; for (auto& c : r) full = std::max(full, c.second.size()); size_t lim = rp::rnd(0, 4); rp::CASES(h + " points " + dump(r) + " fullest cell to " + std::to_string(lim)); auto co = g.getFullestGridCell();
  EXPECT(at(r, {co.i_rows, co.j_cols}).size() == full, "the cell found is not a fullest one"); size_t n = g.removeWeightedPointsFromOverfullCell(co, lim); Ref now = observe(d, g); strongest(at(r, {co.i_rows, co.j_cols}), at(now, {co.i_rows, co.j_cols}), lim);
  EXPECT(n == total(r) - total(now), "wrong number of removed points returned"); for (auto& c : r) if (c.first != std::make_pair(co.i_rows, co.j_cols)) EXPECT(samelist(c.second, at(now, c.first)), "another cell changed");
}
static void nearest(const Dim& d, Grid& g, const std::string& h) {
  Ref r = observe(d, g); P p = point(d); List all; for (auto& c : r) for (auto& q : c.second) all.push_back(q); const double lim = std::min(d.cr, d.cc), dist = rp::rnd(0, 2) ? lim : rp::rndd(0.05, 1) * lim;
  if (rp::rnd(0, 1) && !all.empty()) { const P& q = all[rp::rnd(0, all.size() - 1)]; double u = q.u_rows + rp::rndd(-1, 1) * dist, v = q.v_cols + rp::rndd(-1, 1) * dist; if (rp::rnd(0, 2) == 0) { u = q.u_rows + (rp::rnd(0, 1) ? dist : -dist); v = q.v_cols; } if (u >= 0 && u < d.mr && v >= 0 && v < d.mc) { p.u_rows = u; p.v_cols = v; } }
  rp::CASES(h + " points " + dump(r) + " insert " + str(p) + " distance " + std::to_string(dist)); List near, far; for (auto& q : all) { double a = p.u_rows - q.u_rows, b = p.v_cols - q.v_cols; (a * a + b * b < dist * dist ? near : far).push_back(q); }
  g.addPointOrReplaceWeakestNearestPoints(p, dist); Ref now = observe(d, g); List n; for (auto& c : now) for (auto& q : c.second) n.push_back(q); EXPECT(n.size() == far.size() + 1, std::to_string(n.size()) + " points remain, expected " + std::to_string(far.size() + 1));
  n = sorted(n); far = sorted(far); EXPECT(std::includes(n.begin(), n.end(), far.begin(), far.end(), lessp), "a point farther away than the minimum distance was removed"); List rest; std::set_difference(n.begin(), n.end(), far.begin(), far.end(), std::back_inserter(rest), lessp); near.push_back(p); double w = p.weight; for (auto& q : near) w = std::max(w, q.weight);
  bool in = false; for (auto& q : near) in = in || (rest.size() == 1 && same(q, rest[0])); EXPECT(in, "the remaining point is none of the neighbours"); EXPECT(rest[0].weight == w, "the strongest of the neighbours does not remain");
}
static void history(const Dim& d) {
  std::string h = str(d); Grid g(d.mr, d.mc, d.cr, d.cc);
  for (int s = rp::rnd(1, 12); s > 0; --s) {
    for (int k = rp::rnd(0, 1) ? rp::rnd(0, 6) : rp::rnd(0, 40); k > 0; --k) { P p = point(d); if (rp::rnd(0, 2) == 0) p.u_rows = p.v_cols = 0; g.addPointUnconditional(p); }
    switch (rp::rnd(0, 6)) { case 0: thin(d, g, h); break; case 1: thinTotal(d, g, h); break; case 2: one(d, g, h); break; default: for (int k = rp::rnd(1, 6); k > 0; --k) nearest(d, g, h); }
  }
}
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("g02"); FLAGS_minloglevel = 3;
  refuse("thin to 0", [] { Grid g(10, 10, 5, 5); g.removeWeightedPointsFromOverfullCells(0); }); refuse("total 0", [] { Grid g(10, 10, 5, 5); g.removePointsFromFullestCellsUntilSize(0); });
  refuse("distance 0", [] { Grid g(10, 10, 5, 5); g.addPointOrReplaceWeakestNearestPoints(P(1, 1, 1, 1), 0); }); refuse("distance above the smaller cell size (columns)", [] { Grid g(10, 10, 5, 4); g.addPointOrReplaceWeakestNearestPoints(P(1, 1, 1, 1), 4.5); }); refuse("distance above the smaller cell size (rows)", [] { Grid g(10, 10, 4, 5); g.addPointOrReplaceWeakestNearestPoints(P(1, 1, 1, 1), 4.5); });
  { Grid g(30, 30, 10, 10); for (int i = 0; i < 9; ++i) g.addPointUnconditional(P(i / 3 * 10 + 1, i % 3 * 10 + 1, i, i)); rp::CASES("nine cells with one point each, at most 4"); int o = rp::outcome([&] { g.removePointsFromFullestCellsUntilSize(4); }); EXPECT(o == 0, "cells with one point cannot be thinned"); }
  while (rp::more()) { Dim d = dim(); if (d.mr < d.cr || d.mc < d.cc) continue; history(d); }
  rp::done();
}
