// Executable contract of G01: the occupancy grid places and counts every point correctly.
#include "grid.h"
static void refuse(const std::string& w, std::function<void()> f) { rp::CASES(w); int o = rp::outcome(f); EXPECT(o == 1, o == 0 ? "accepted although outside the grid" : "not refused cleanly"); }
static void accept(const std::string& w, std::function<void()> f) { rp::CASES(w); int o = rp::outcome(f); EXPECT(o == 0, "a coordinate inside the grid is refused"); }
static void history(const Dim& d, int steps) {
  std::string h = str(d) + ":"; rp::CASES(h); Grid g(d.mr, d.mc, d.cr, d.cc); Ref r; EXPECT(same(observe(d, g), r), "a new grid is not empty");
  for (int s = 0; s < steps; ++s) {
    const int op = rp::rnd(0, 11); P p = point(d);
    if (op < 5) { h += " add" + str(p); rp::CASES(h); g.addPointUnconditional(p); r[home(d, p)].push_back(p); }
    else if (op < 9) {
      size_t lim = rp::rnd(1, 4); h += " add" + str(p) + "/" + std::to_string(lim); rp::CASES(h); List& c = r[home(d, p)]; bool stored = false;
      if (c.size() < lim) { c.push_back(p); stored = true; }
      else { size_t k = 0; for (size_t i = 1; i < c.size(); ++i) if (c[i].weight < c[k].weight) k = i; if (c[k].weight < p.weight) { c[k] = p; stored = true; } }
      const bool b = g.addPointOrReplaceWeakestIfCellFull(p, lim); EXPECT(b == stored, stored ? "a point that belongs into the cell is reported as not stored" : "a point is reported as stored although the cell is full of points at least as heavy");
    } else if (op == 9 && rp::rnd(0, 2) == 0) { h += " reset"; rp::CASES(h); g.reset(); r.clear(); }
    else if (op == 10) { double w = rp::rndi(-3, 3); h += " weight"; rp::CASES(h); g.setConstantWeightForAllPointsInGrid(w); for (auto& c : r) for (auto& q : c.second) q.weight = w; }
    Ref e; for (auto& c : r) if (!c.second.empty()) e[c.first] = c.second;
    Ref now = observe(d, g); if (same(now, e)) continue;
    // among equally weak points any one may be replaced: compare as multisets of weights per cell
    bool ok = now.size() == e.size(); for (auto& c : e) { auto it = now.find(c.first); ok = ok && it != now.end() && it->second.size() == c.second.size(); if (!ok) break; std::multiset<double> a, b; bool has = false; for (auto& q : c.second) { a.insert(q.weight); if (q.id == p.id) has = true; } for (auto& q : it->second) { b.insert(q.weight); if (q.id == p.id) has = has && true; } (void)has; ok = a == b; }
    EXPECT(ok, "the stored points differ from those that should be there"); r = now;
  }
}
static void edges(const Dim& d) {
  std::string s = str(d) + " "; const double up = std::nextafter(d.mr, 0.0), vp = std::nextafter(d.mc, 0.0);
  for (auto uv : {std::make_pair(0.0, 0.0), std::make_pair(up, 0.0), std::make_pair(0.0, vp), std::make_pair(up, vp)}) {
    std::string k = str(P(uv.first, uv.second, 1, 1)); accept(s + "lookup" + k, [&] { Grid g(d.mr, d.mc, d.cr, d.cc); g.getGridCell(uv.first, uv.second); }); accept(s + "add" + k, [&] { Grid g(d.mr, d.mc, d.cr, d.cc); g.addPointUnconditional(P(uv.first, uv.second, 1, 1)); });
  }
  for (auto uv : {std::make_pair(d.mr, 0.0), std::make_pair(0.0, d.mc), std::make_pair(-1e-9, 0.0), std::make_pair(0.0, -1e-9), std::make_pair(d.mr * 2, vp), std::make_pair(up, d.mc + 100), std::make_pair(std::nan(""), 0.0), std::make_pair(0.0, std::nan(""))}) {
    std::string k = str(P(uv.first, uv.second, 1, 1)); refuse(s + "lookup" + k, [&] { Grid g(d.mr, d.mc, d.cr, d.cc); g.getGridCell(uv.first, uv.second); }); refuse(s + "const lookup" + k, [&] { const Grid g(d.mr, d.mc, d.cr, d.cc); g.getGridCell(uv.first, uv.second); });
    refuse(s + "add" + k, [&] { Grid g(d.mr, d.mc, d.cr, d.cc); g.addPointUnconditional(P(uv.first, uv.second, 1, 1)); }); refuse(s + "limited add" + k, [&] { Grid g(d.mr, d.mc, d.cr, d.cc); g.addPointOrReplaceWeakestIfCellFull(P(uv.first, uv.second, 1, 1), 1); });
  }
  refuse(s + "add with limit 0", [&] { Grid g(d.mr, d.mc, d.cr, d.cc); g.addPointOrReplaceWeakestIfCellFull(P(0, 0, 1, 1), 0); });
}
int main(int argc, char** argv) {
  rp::init(argc, argv); google::InitGoogleLogging("g01"); FLAGS_minloglevel = 3;
  for (Dim d : {Dim{10, 10, 5, 5}, Dim{7, 3, 7, 3}, Dim{10.5, 20, 3, 7}, Dim{104, 100, 8 / 3.0, 4 / 3.0}}) edges(d);
  refuse("no rows", [] { Grid g(0, 5, 1, 1); }); refuse("negative columns", [] { Grid g(5, -1, 1, 1); }); refuse("cell larger than the area (rows)", [] { Grid g(5, 5, 6, 1); }); refuse("cell larger than the area (columns)", [] { Grid g(5, 5, 1, 6); });
  history({30, 12, 10, 3}, 60);
  for (int i = 0; i < 6; ++i) edges(dim());
  long n = 0; while (rp::more()) { Dim d = dim(); if (d.mr < d.cr || d.mc < d.cc) continue; history(d, rp::rnd(1, rp::rnd(0, 3) ? 30 : 80)); if (++n % 50 == 0) edges(d); }
  rp::done();
}
