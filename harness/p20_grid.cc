// Weighted occupancy grid: every operation compared with a list of points.
#include "symx.h"
#include <cmath>
#include <cstdint>
#include <limits>
#include <string>
#include <vector>
#include <Eigen/Core>
#include <glog/logging.h>
#include <opencv2/imgproc/imgproc_c.h>
#include <aslam/common/occupancy-grid.h>
namespace {
int cellOf(int u, int size) { return u / size; }
double cellOf(double u, double size) { return std::floor(u / size); }
template <class C, class W> struct Model {
  typedef aslam::common::WeightedKeypoint<C, W, int> Point;
  typedef aslam::common::WeightedOccupancyGrid<Point> Grid;
  C rows, cols, cr, cc;
  Grid grid;
  std::vector<Point> all;       // every point ever inserted; id = position here
  std::vector<bool> in;         // which of them are in the grid
  Model(C r, C c, C a, C b) : rows(r), cols(c), cr(a), cc(b), grid(r, c, a, b) {}
  static C coordinate(const char* n, C limit);
  static W weight();
  int numIn() const { int n = 0; for (bool b : in) n += b; return n; }
  bool sameCell(const Point& a, const Point& b) const {
    return (cellOf(a.u_rows, cr) == cellOf(b.u_rows, cr)) & (cellOf(a.v_cols, cc) == cellOf(b.v_cols, cc));
  }
  Point make() {
    Point p(coordinate("row", rows), coordinate("col", cols), weight(), (int)all.size());
    all.push_back(p); in.push_back(false);
    return p;
  }
  // what the grid contains now
  std::vector<bool> content() {
    std::vector<Point> pts; std::vector<bool> now(all.size(), false);
    size_t n = 0;
    const int r = symx_try([&] { n = grid.getAllPointsInGrid(&pts); });
    SYMX_ASSERT(r == 0 && n == pts.size() && grid.getNumPoints() == n, "the number of points agrees with the points in the grid");
    for (auto& p : pts) {
      const int64_t id = (int64_t)symx_concretize((uint64_t)p.id);
      SYMX_ASSERT(id >= 0 && id < (int64_t)all.size() && !now[id], "the grid holds inserted points only, each once");
      now[id] = true;
      SYMX_ASSERT((p.u_rows == all[id].u_rows) & (p.v_cols == all[id].v_cols) & (p.weight == all[id].weight), "points are not altered");
    }
    return now;
  }
  void cells() {  // looking at a position finds the points of its cell
    for (size_t i = 0; i < all.size(); i++) {
      if (!in[i]) continue;
      const std::vector<Point>* cell = nullptr;
      symx_assume(true);
      const int r = symx_try([&] { cell = &grid.getGridCell(all[i].u_rows, all[i].v_cols); });
      SYMX_ASSERT(r == 0, "every position inside the grid has a cell");
      uint32_t here = 0;
      for (auto& p : *cell) here |= 1u << symx_concretize((uint64_t)p.id);
      for (size_t j = 0; j < all.size(); j++) if (in[j]) SYMX_ASSERT(sameCell(all[i], all[j]) == (bool)(here >> j & 1), "the cell of a position holds exactly the points lying in it");
    }
  }
  void unconditional() {
    const Point p = make();
    const int r = symx_try([&] { grid.addPointUnconditional(p); });
    SYMX_ASSERT(r == 0, "adding a point inside the grid succeeds");
    in.back() = true;
    SYMX_ASSERT(content() == in, "adding a point adds it and nothing else");
  }
  void ifFull(size_t max) {
    const Point p = make();
    bool added = false;
    const int r = symx_try([&] { added = grid.addPointOrReplaceWeakestIfCellFull(p, max); });
    SYMX_ASSERT(r == 0, "adding a point inside the grid succeeds");
    const std::vector<bool> now = content();
    uint32_t inCell = 0; bool weaker = false;
    for (size_t i = 0; i + 1 < all.size(); i++) if (in[i]) { const bool s = sameCell(all[i], p); inCell += s; weaker = weaker | (s & (all[i].weight < p.weight)); }
    const bool room = inCell < max;
    SYMX_ASSERT(added == (room | weaker), "a point is accepted when its cell has room or holds a weaker point");
    SYMX_ASSERT((bool)now.back() == added, "an accepted point is in the grid, a refused one is not");
    int gone = 0;
    for (size_t i = 0; i + 1 < all.size(); i++) {
      if (now[i] == in[i]) continue;
      SYMX_ASSERT(in[i] && !room, "only a full cell loses a point");
      gone++;
      bool weakest = all[i].weight < p.weight;
      for (size_t j = 0; j + 1 < all.size(); j++) if (in[j]) weakest = weakest & (!sameCell(all[j], p) | (all[j].weight >= all[i].weight));
      SYMX_ASSERT(weakest & sameCell(all[i], p), "the replaced point is the weakest of the cell");
    }
    SYMX_ASSERT(gone == ((added && !room) ? 1 : 0), "a full cell trades one point for one");
    in = now;
  }
  void nearest(C distance) {
    const Point p = make();
    const int r = symx_try([&] { grid.addPointOrReplaceWeakestNearestPoints(p, distance); });
    SYMX_ASSERT(r == 0, "adding a point inside the grid succeeds");
    const std::vector<bool> now = content();
    std::vector<bool> close(all.size(), false);
    bool any = false;
    int kept = 0;
    for (size_t i = 0; i < all.size(); i++) {
      const C dr = p.u_rows - all[i].u_rows, dc = p.v_cols - all[i].v_cols;
      close[i] = i + 1 == all.size() ? true : (in[i] ? (bool)(dr * dr + dc * dc < distance * distance) : false);
      if (i + 1 < all.size()) any = any || close[i];
      if (close[i]) kept += now[i];
      else SYMX_ASSERT(now[i] == in[i], "points farther away stay");
    }
    SYMX_ASSERT(kept == 1, "of the new point and those too close to it exactly one stays");
    for (size_t i = 0; i < all.size(); i++) if (close[i] && now[i]) for (size_t j = 0; j < all.size(); j++) if (close[j]) SYMX_ASSERT(all[i].weight >= all[j].weight, "the strongest of the conflicting points stays");
    in = now;
  }
  void overfull(size_t max) {
    size_t n = 0;
    const int r = symx_try([&] { n = grid.removeWeightedPointsFromOverfullCells(max); });
    SYMX_ASSERT(r == 0, "thinning the cells succeeds");
    const std::vector<bool> now = content();
    size_t gone = 0;
    for (size_t i = 0; i < all.size(); i++) {
      if (!in[i]) { SYMX_ASSERT(!now[i], "removing points adds none"); continue; }
      gone += !now[i];
      size_t before = 0, after = 0; bool stronger = true;
      for (size_t j = 0; j < all.size(); j++) if (in[j]) { const bool s = sameCell(all[i], all[j]); before += s; if (now[j]) { after += s; stronger = stronger & (!s | (all[j].weight >= all[i].weight)); } }
      SYMX_ASSERT(after == (before < max ? before : max), "a cell keeps all its points up to the limit and no more");
      if (!now[i]) SYMX_ASSERT(stronger, "the points with the lowest weights are removed");
    }
    SYMX_ASSERT(n == gone, "the number of removed points is reported");
    in = now;
  }
  void untilSize(size_t max) {
    const int before = numIn();
    const int r = symx_try([&] { grid.removePointsFromFullestCellsUntilSize(max); });
    SYMX_ASSERT(r == 0, "thinning the grid succeeds");
    const std::vector<bool> now = content();
    const size_t left = (size_t)std::count(now.begin(), now.end(), true);
    SYMX_ASSERT(left == std::min(max, (size_t)before), "points are removed exactly until the wanted number is left");
    for (size_t i = 0; i < all.size(); i++) {
      if (!in[i]) { SYMX_ASSERT(!now[i], "removing points adds none"); continue; }
      if (now[i]) continue;
      uint32_t mine = 0; bool stronger = true;
      for (size_t j = 0; j < all.size(); j++) if (now[j]) { const bool s = sameCell(all[i], all[j]); mine += s; stronger = stronger & (!s | (all[j].weight >= all[i].weight)); }
      SYMX_ASSERT(stronger, "the points with the lowest weights are removed");
      // no other cell is left with more than one point more than a thinned one
      for (size_t k = 0; k < all.size(); k++) if (now[k]) { uint32_t other = 0; for (size_t j = 0; j < all.size(); j++) if (now[j]) other += sameCell(all[k], all[j]); SYMX_ASSERT(other <= mine + 1, "points are taken from the fullest cells"); }
    }
    in = now;
  }
  void reweigh() {
    const W w = weight();
    grid.setConstantWeightForAllPointsInGrid(w);
    for (size_t i = 0; i < all.size(); i++) if (in[i]) all[i].weight = w;
    SYMX_ASSERT(content() == in, "setting a weight changes nothing else");
  }
  void clear() { grid.reset(); in.assign(all.size(), false); SYMX_ASSERT(content() == in, "a reset empties the grid"); }
  void refused() {
    Point p(coordinateAny("row"), coordinateAny("col"), weight(), 0);
    const bool inside = (p.u_rows >= 0) & (p.v_cols >= 0) & (p.u_rows < rows) & (p.v_cols < cols);
    const int how = (int)symx_choose("how", 0, 2);
    const int r = symx_try([&] { if (how == 0) grid.addPointUnconditional(p); else if (how == 1) grid.addPointOrReplaceWeakestIfCellFull(p, 1); else grid.addPointOrReplaceWeakestNearestPoints(p, cr < cc ? cr : cc); });
    SYMX_ASSERT((r == 0) == inside, "points outside the area are refused, points inside accepted");
    symx_reach(r ? "gridRefused" : "gridAccepted");
  }
  static C coordinateAny(const char* n);
};
double real(const char* n) { double d; if (symx_is_real_mode()) d = symx_f64(n); else { symx_bytes(&d, 8, n); symx_assume(std::fabs(d) < std::numeric_limits<double>::infinity()); } return d; }
template <class T> struct Draw;
template <> struct Draw<int> { static int any(const char* n) { return symx_i32(n); } static int below(const char* n, int limit) { const int v = symx_u8(n) & (limit > 8 ? 63 : 7); symx_assume(v < limit); return v; } };
template <> struct Draw<unsigned> { static unsigned any(const char* n) { return symx_u32(n); } };
template <> struct Draw<double> { static double any(const char* n) { return real(n); } static double below(const char* n, double limit) { const double d = real(n); symx_assume((d >= 0) & (d < limit)); return d; } };
template <class C, class W> C Model<C, W>::coordinate(const char* n, C limit) { return Draw<C>::below(n, limit); }
template <class C, class W> C Model<C, W>::coordinateAny(const char* n) { return Draw<C>::any(n); }
template <class C, class W> W Model<C, W>::weight() { return Draw<W>::any("weight"); }
// rounding in the division: a position just below the upper end of the area
void corner() {
  static const double areas[][2] = {{1.8000000000000003, 0.2}, {4.8, 1.6}, {0.8, 0.1}, {2.1, 0.7}, {480, 48}, {640, 30}};
  const auto& a = areas[symx_choose("area", 0, symx_param("areas", 0))];
  Model<double, double> m(a[0], a[0], a[1], a[1]);
  Model<double, double>::Point p(0, 0, 1, 0);
  const uint64_t below = symx_range("below", 0, symx_param("below", 1));  // distance to the end in steps of the number format
  uint64_t bits; double lim = a[0]; __builtin_memcpy(&bits, &lim, 8);
  bits = bits - 1 - below; __builtin_memcpy(&p.u_rows, &bits, 8); p.v_cols = p.u_rows;
  const int r = symx_try([&] { m.grid.addPointUnconditional(p); });
  SYMX_ASSERT(r == 0, "every position inside the grid has a cell");
  symx_reach("corner");
}
template <class C, class W> void run() {
  const double div = (double)symx_param("div", 1);
  Model<C, W> m((C)(symx_param("rows", 7) / div), (C)(symx_param("cols", 5) / div), (C)(symx_param("cr", 4) / div), (C)(symx_param("cc", 3) / div));
  const int op = (int)symx_param("op", 0), n = (int)symx_param("points", 3);
  if (op == 9) { m.refused(); return; }
  for (int i = 0; i < n; i++) m.unconditional();
  switch (op) {
    case 0: m.cells(); break;
    case 1: m.ifFull((size_t)symx_choose("max", 1, n + 1)); break;
    case 2: m.nearest((C)(symx_param("distance", 3) / div)); break;
    case 3: m.overfull((size_t)symx_choose("max", 1, n + 1)); break;
    case 4: m.untilSize((size_t)symx_choose("max", 1, n + 1)); break;
    case 5: {
      int near = 0;
      for (int s = 0; s < (int)symx_param("steps", 2); s++) {
        const int step = (int)symx_choose("step", 0, 6);
        if (step == 2 && near++ >= (int)symx_param("near", 0)) symx_skip();
        switch (step) {
          case 0: m.unconditional(); break; case 1: m.ifFull(1 + (size_t)symx_choose("max", 0, 1)); break; case 2: m.nearest((C)(symx_param("distance", 3) / div)); break;
          case 3: m.overfull(1); break; case 4: m.untilSize(1 + (size_t)symx_choose("max", 0, 1)); break; case 5: m.reweigh(); break; case 6: m.clear(); break;
        }
      }
      m.cells();
      break;
    }
  }
  symx_reach("grid");
}
}  // namespace
void symx_main(void) {
  switch (symx_param("case", 0)) {
    case 0: run<int, int>(); break;
    case 1: run<double, double>(); break;
    case 2: run<int, unsigned>(); break;
    case 3: run<double, unsigned>(); break;
    case 4: corner(); break;
  }
}
