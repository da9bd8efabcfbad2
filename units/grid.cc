// Entry points for the weighted occupancy grid.
#include <aslam/common/occupancy-grid.h>
namespace vu {
using namespace aslam::common;
typedef WeightedKeypoint<double, double, int> P; typedef WeightedOccupancyGrid<P> Grid; typedef Grid::PointList List;
Grid* make(double mr, double mc, double cr, double cc) { return new Grid(mr, mc, cr, cc); }
void reset(Grid* g) { g->reset(); }
void add(Grid* g, const P& p) { g->addPointUnconditional(p); }
bool add_limited(Grid* g, const P& p, size_t n) { return g->addPointOrReplaceWeakestIfCellFull(p, n); }
void add_nearest(Grid* g, const P& p, double d) { g->addPointOrReplaceWeakestNearestPoints(p, d); }
size_t count(const Grid& g) { return g.getNumPoints(); }
size_t list(const Grid& g, List* l) { return g.getAllPointsInGrid(l); }
List& cell(Grid* g, double u, double v) { return g->getGridCell(u, v); }
const List& cell_c(const Grid& g, double u, double v) { return g.getGridCell(u, v); }
void set_weight(Grid* g, double w) { g->setConstantWeightForAllPointsInGrid(w); }
size_t thin(Grid* g, size_t n) { return g->removeWeightedPointsFromOverfullCells(n); }
void thin_total(Grid* g, size_t n) { g->removePointsFromFullestCellsUntilSize(n); }
size_t thin_fullest(Grid* g, size_t n) { return g->removeWeightedPointsFromOverfullCell(g->getFullestGridCell(), n); }
}
