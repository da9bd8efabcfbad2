#include <aslam/common/occupancy-grid.h>
#include <glog/logging.h>
#include <cmath>
#include <map>
#include <set>
#include "common.h"
using namespace aslam::common;
typedef WeightedKeypoint<double, double, int> P; typedef WeightedOccupancyGrid<P> Grid; typedef Grid::PointList List;
struct Dim { double mr, mc, cr, cc; size_t R() const { return std::ceil(mr / cr); } size_t C() const { return std::ceil(mc / cc); } };
static std::string str(const Dim& d) { char b[200]; snprintf(b, 200, "grid %.17g x %.17g cells %.17g x %.17g", d.mr, d.mc, d.cr, d.cc); return b; }
static std::string str(const P& p) { char b[200]; snprintf(b, 200, "(%.17g %.17g w%.17g #%d)", p.u_rows, p.v_cols, p.weight, p.id); return b; }
static bool same(const P& a, const P& b) { return a.u_rows == b.u_rows && a.v_cols == b.v_cols && a.weight == b.weight && a.id == b.id; }
static std::pair<size_t, size_t> home(const Dim& d, const P& p) { return {std::min<size_t>(std::floor(p.u_rows / d.cr), d.R() - 1), std::min<size_t>(std::floor(p.v_cols / d.cc), d.C() - 1)}; }
// reference grid: a list per cell
typedef std::map<std::pair<size_t, size_t>, List> Ref;
static size_t total(const Ref& r) { size_t n = 0; for (auto& c : r) n += c.second.size(); return n; }
// all points of the real grid by cell, with the placement and count guarantees checked on the way
static Ref observe(const Dim& d, Grid& g) {
  const Grid& cg = g; Ref r; size_t n = 0;
  for (size_t i = 0; i < d.R(); ++i) for (size_t j = 0; j < d.C(); ++j) {
    const double u = std::min((i + 0.5) * d.cr, std::nextafter(d.mr, 0.0)), v = std::min((j + 0.5) * d.cc, std::nextafter(d.mc, 0.0)); P probe(u, v, 0, 0); if (home(d, probe) != std::make_pair(i, j)) continue;
    List& c = g.getGridCell(u, v); EXPECT(&c == &cg.getGridCell(u, v), "constant and mutable lookup refer to different cells");
    for (auto& p : c) EXPECT(home(d, p) == std::make_pair(i, j), "point " + str(p) + " is stored in a cell it does not lie in");
    if (!c.empty()) r[{i, j}] = c; n += c.size();
  }
  EXPECT(g.getNumPoints() == n, "the reported count " + std::to_string(g.getNumPoints()) + " differs from the " + std::to_string(n) + " points stored");
  List l(3, P(-1, -1, -1, -1)); int o = rp::outcome([&] { List t; g.getAllPointsInGrid(&t); }); EXPECT(o == 0, "listing the points fails");
  EXPECT(g.getAllPointsInGrid(&l) == n && l.size() == n, "not as many points listed as stored"); size_t k = 0;
  for (auto& c : r) for (auto& p : c.second) { EXPECT(k < l.size() && same(l[k], p), "the listing does not contain every stored point once"); ++k; }
  return r;
}
static bool same(const Ref& a, const Ref& b) {
  if (a.size() != b.size()) return false;
  for (auto& c : a) { auto it = b.find(c.first); if (it == b.end() || it->second.size() != c.second.size()) return false; for (size_t k = 0; k < c.second.size(); ++k) if (!same(c.second[k], it->second[k])) return false; }
  return true;
}
static bool lessp(const P& a, const P& b) { return std::tie(a.u_rows, a.v_cols, a.weight, a.id) < std::tie(b.u_rows, b.v_cols, b.weight, b.id); }
static List sorted(List l) { std::sort(l.begin(), l.end(), lessp); return l; }
static bool samelist(const List& a, const List& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; return true; }
static Dim dim() {
  switch (rp::rnd(0, 4)) {
    case 0: { double c = rp::rnd(1, 12), k = rp::rnd(1, 9); return {c * k, c * rp::rnd(1, 9), c, c}; }
    case 1: return {rp::rndd(10, 60), rp::rndd(10, 60), rp::rndd(1, 10), rp::rndd(1, 10)};
    case 2: { double c = rp::rnd(1, 50) / 3.0, e = rp::rnd(1, 99) / 10.0; return {c * rp::rnd(1, 20), e * rp::rnd(1, 20), c, e}; }
    case 3: return {double(rp::rnd(8, 40)), double(rp::rnd(8, 40)), double(rp::rnd(2, 8)), double(rp::rnd(2, 8))};
    default: return {rp::rndd(3, 9), rp::rndd(20, 90), rp::rndd(1, 3), rp::rndd(4, 20)};
  }
}
static int next_id = 0;
static double coord(double m, double c) {
  switch (rp::rnd(0, 6)) { case 0: return 0.0; case 1: return std::nextafter(m, 0.0); case 2: return std::min(c * rp::rnd(0, 8), std::nextafter(m, 0.0)); case 3: return std::min(std::floor(rp::rndd(0, m)), std::nextafter(m, 0.0)); case 4: { double x = std::nextafter(c * rp::rnd(1, 8), 0.0); return x < m ? x : 0.0; } default: return std::min(rp::rndd(0, m), std::nextafter(m, 0.0)); }
}
static P point(const Dim& d) { return P(coord(d.mr, d.cr), coord(d.mc, d.cc), rp::rnd(0, 3) ? double(rp::rndi(-4, 4)) : rp::rndd(-100, 100), next_id++); }
