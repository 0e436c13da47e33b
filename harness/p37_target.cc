// Calibration targets: grid indices and points, and observations of their corners.
#include "symx.h"
#include <cmath>
#include <cstdint>
#include <memory>
#include <vector>
#include <glog/logging.h>
#include <opencv2/imgproc/imgproc_c.h>
#include <aslam/calibration/target-base.h>
#include <aslam/calibration/target-observation.h>
using namespace aslam::calibration;
namespace {
struct Target : TargetBase {
  Target(size_t r, size_t c, const Eigen::Matrix3Xd& p) : TargetBase(r, c, p) {}
};
bool same(const Eigen::Vector3d& a, const Eigen::Matrix3Xd& m, int col) {
  return (a(0) == m(0, col)) & (a(1) == m(1, col)) & (a(2) == m(2, col));
}
Eigen::Matrix3Xd points(int n) {
  Eigen::Matrix3Xd p(3, n);
  for (int i = 0; i < 3 * n; i++) { p.data()[i] = symx_f64("p"); symx_assume((p.data()[i] >= -1e6) & (p.data()[i] <= 1e6)); }
  return p;
}
void make() {
  const int max = (int)symx_param("max", 3), r = (int)symx_choose("rows", 0, max), c = (int)symx_choose("cols", 0, max), n = (int)symx_choose("n", 0, max * max);
  const Eigen::Matrix3Xd p = points(n);
  int ok = symx_try([&] { Target t(r, c, p); SYMX_ASSERT((t.rows() == (size_t)r) & (t.cols() == (size_t)c) & (t.size() == (size_t)n), "a target has the rows, columns and points it was made of"); });
  SYMX_ASSERT((ok == 0) == ((r > 0) & (c > 0) & (r * c == n)), "a target is refused exactly if its points do not fill the grid");
  symx_reach(ok ? "targetRefused" : "targetMade");
}
// every index, row and column, also beyond 32 bits
void grid() {
  const int max = (int)symx_param("max", 3), r = (int)symx_choose("rows", 1, max), c = (int)symx_choose("cols", 1, max), n = r * c;
  const Eigen::Matrix3Xd p = points(n);
  Target t(r, c, p);
  bool all = true;
  for (int i = 0; i < n; i++) all = all & same(t.points().col(i), p, i);
  SYMX_ASSERT(all, "the points are those the target was made of");
  const uint64_t row = symx_u64("row"), col = symx_u64("col");
  uint64_t idx = 0; Eigen::Vector3d at;
  int ok = symx_try([&] { idx = t.gridCoordinatesToPoint(row, col); });
  SYMX_ASSERT((ok == 0) == ((row < (uint64_t)r) & (col < (uint64_t)c)), "grid positions outside the target are refused, others accepted");
  if (ok == 0) {
    SYMX_ASSERT(idx == row * c + col, "points are numbered row by row");
    const std::pair<size_t, size_t> g = t.pointToGridCoordinates(idx);
    SYMX_ASSERT((g.first == col) & (g.second == row), "the grid position of a point index is that of the point (column, row)");
    idx = symx_concretize(idx);
    symx_try([&] { at = t.gridPoint(row, col); });
    SYMX_ASSERT(same(at, p, (int)idx), "the point at a grid position is the one with the index of that position");
    symx_reach("gridInside");
  } else {
    SYMX_ASSERT(symx_try([&] { at = t.gridPoint(row, col); }) != 0, "no point is given for a position outside the target");
    symx_reach("gridOutside");
  }
}
void index() {
  const int max = (int)symx_param("max", 3), r = (int)symx_choose("rows", 1, max), c = (int)symx_choose("cols", 1, max), n = r * c;
  const Eigen::Matrix3Xd p = points(n);
  Target t(r, c, p);
  uint64_t idx = symx_u64("index");
  const bool inside = idx < (uint64_t)n;
  if (inside) idx = symx_concretize(idx);
  Eigen::Vector3d at; double* m = nullptr;
  SYMX_ASSERT((symx_try([&] { at = t.point(idx); }) == 0) == inside, "point indices outside the target are refused, others accepted");
  SYMX_ASSERT((symx_try([&] { m = t.pointMutable(idx); }) == 0) == inside, "point indices outside the target are refused, others accepted");
  if (!inside) { symx_reach("indexOutside"); return; }
  SYMX_ASSERT(same(at, p, (int)idx), "a point is the one with its index");
  const double v[3] = {symx_f64("v"), symx_f64("v"), symx_f64("v")};
  for (int i = 0; i < 3; i++) { symx_assume((v[i] >= -1e6) & (v[i] <= 1e6)); m[i] = v[i]; }
  bool all = true;
  for (int i = 0; i < n; i++) all = all & (i == (int)idx ? ((t.point(i)(0) == v[0]) & (t.point(i)(1) == v[1]) & (t.point(i)(2) == v[2])) : same(t.point(i), p, i));
  SYMX_ASSERT(all, "changing a point changes that point and no other");
  symx_reach("index");
}
void extent() {
  const int max = (int)symx_param("max", 3), r = (int)symx_choose("rows", 1, max), c = (int)symx_choose("cols", 1, max), n = r * c;
  const Eigen::Matrix3Xd p = points(n);
  Target t(r, c, p);
  const double w = p(0, c - 1) - p(0, 0), h = p(1, (r - 1) * c) - p(1, 0);
  SYMX_ASSERT((t.width() == w) | (t.width() == -w), "the width is the distance between the ends of the first row");
  SYMX_ASSERT((t.height() == h) | (t.height() == -h), "the height is the distance between the ends of the first column");
  SYMX_ASSERT((t.width() >= 0) & (t.height() >= 0), "extents are not negative");
  symx_reach("extent");
}
void observation() {
  const int r = (int)symx_param("rows", 2), c = (int)symx_param("cols", 2), n = r * c;
  const Eigen::Matrix3Xd p = points(n);
  TargetBase::Ptr t(new Target(r, c, p));
  const int k = (int)symx_choose("k", 0, symx_param("k", 3)), kc = (int)symx_choose("corners", k, k + 1);
  Eigen::VectorXi ids(k); Eigen::Matrix2Xd corners(2, kc);
  for (int i = 0; i < k; i++) { ids(i) = symx_range("id", 0, n - 1); for (int j = 0; j < i; j++) symx_assume(ids(i) != ids(j)); }
  for (int i = 0; i < 2 * kc; i++) { corners.data()[i] = symx_f64("x"); symx_assume((corners.data()[i] >= 0) & (corners.data()[i] <= 1e6)); }
  const uint32_t h = symx_u32("h"), w = symx_u32("w");
  std::unique_ptr<TargetObservation> o;
  int ok = symx_try([&] { o.reset(new TargetObservation(t, h, w, ids, corners)); });
  SYMX_ASSERT((ok == 0) == (kc == k), "an observation needs a position for every corner");
  if (ok) { symx_reach("observationRefused"); return; }
  SYMX_ASSERT((o->getImageHeight() == h) & (o->getImageWidth() == w) & (o->getTarget() == t), "an observation knows its target and its image size");
  SYMX_ASSERT((int)o->numObservedCorners() == k, "the number of observed corners is that of the given ones");
  SYMX_ASSERT(o->allCornersObservered() == (k == n), "all corners are observed if there are as many as the target has");
  const int what = (int)symx_choose("what", 0, 2);
  if (what == 0) {  // by corner id
    const int id = symx_i32("corner");
    const bool on = (id >= 0) & (id < n);
    bool seen = false, found = false, ok1, ok2; Eigen::Vector2d at(-1, -2);
    ok1 = symx_try([&] { seen = o->observedCornerId((size_t)(int64_t)id); }) == 0;
    ok2 = symx_try([&] { found = o->getObservedCornerById(id, &at); }) == 0;
    SYMX_ASSERT((ok1 == on) & (ok2 == on), "corners that are not on the target are refused, others accepted");
    if (!on) { symx_reach("cornerRefused"); return; }
    int where = -1;
    for (int i = 0; i < k; i++) if (ids(i) == id) where = i;
    SYMX_ASSERT(seen == (where >= 0), "a corner counts as observed exactly if it is among the observed ones");
    SYMX_ASSERT(found == (where >= 0), "a corner is found exactly if it is among the observed ones");
    if (where >= 0) SYMX_ASSERT((at(0) == corners(0, where)) & (at(1) == corners(1, where)), "a corner is found where it was observed");
    else SYMX_ASSERT((at(0) == -1) & (at(1) == -2), "nothing is written for a corner that was not observed");
    symx_reach("cornerById");
  } else if (what == 1) {  // by index
    const uint64_t idx = symx_range("index", 0, k + 2);
    Eigen::Vector2d at; size_t id = 0;
    const bool ok1 = symx_try([&] { at = o->getObservedCorner(idx); }) == 0, ok2 = symx_try([&] { id = o->getObservedCornerId((int)idx); }) == 0;
    SYMX_ASSERT((ok1 == (idx < (uint64_t)k)) & (ok2 == (idx < (uint64_t)k)), "indices beyond the observed corners are refused, others accepted");
    if (idx < (uint64_t)k) {
      const int i = (int)symx_concretize(idx);
      SYMX_ASSERT((at(0) == corners(0, i)) & (at(1) == corners(1, i)) & (id == (size_t)ids(i)), "positions and ids are those observed, in their order");
    }
    symx_reach("cornerByIndex");
  } else {
    const Eigen::Matrix3Xd q = o->getCorrespondingTargetPoints();
    bool all = (q.cols() == k) & (o->getObservedCorners().cols() == k) & (o->getObservedCornerIds().size() == k);
    for (int i = 0; i < k; i++) { const int id = (int)symx_concretize(ids(i)); all = all & same(q.col(i), p, id) & (o->getObservedCorners()(0, i) == corners(0, i)) & (o->getObservedCorners()(1, i) == corners(1, i)) & (o->getObservedCornerIds()(i) == ids(i)); }
    SYMX_ASSERT(all, "every observed corner is paired with its point on the target");
    symx_reach("correspondences");
  }
}
void invalid() {  // a corner that the target does not have
  TargetBase::Ptr t(new Target(2, 2, points(4)));
  Eigen::VectorXi ids(1); Eigen::Matrix2Xd corners(2, 1); corners.setZero();
  ids(0) = symx_i32("id"); symx_assume((ids(0) < 0) | (ids(0) >= 4));
  int r = symx_try([&] { TargetObservation o(t, 1, 1, ids, corners); o.getCorrespondingTargetPoints(); });
  SYMX_ASSERT(r != 0, "no target point is given for a corner the target does not have");
  r = symx_try([&] { TargetObservation o(TargetBase::Ptr(), 1, 1, ids, corners); });
  SYMX_ASSERT(r != 0, "an observation needs a target");
  symx_reach("foreignCorner");
}
}  // namespace
extern "C" void symx_main(void) {
  switch (symx_param("case", 0)) {
    case 0: make(); break;
    case 1: grid(); break;
    case 2: index(); break;
    case 3: extent(); break;
    case 4: observation(); break;
    case 5: invalid(); break;
  }
}
