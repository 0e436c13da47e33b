// Frames: keypoint data, types, discarding, copies, bearing vectors (P30); rigs of frames (P31).
#include <opencv2/imgproc/imgproc_c.h>
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include <aslam/cameras/ncamera.h>
#include <aslam/frames/feature-track.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/frames/visual-nframe.h>
#include <cstring>
#include <functional>
#include <opencv2/core/core.hpp>
#include <vector>
#include "distortion_models.inc"
typedef VisualFrame::DescriptorsT Desc;
static bool same(double a, double b) { return reinterpret_cast<uint64_t&>(a) == reinterpret_cast<uint64_t&>(b); }
static bool same(int a, int b) { return a == b; }
static bool same(unsigned char a, unsigned char b) { return a == b; }
template <class A, class B>
static void equal(const A& a, const B& b, const char* label) {
  SYMX_ASSERT(a.rows() == b.rows() && a.cols() == b.cols(), label);
  for (int c = 0; c < a.cols(); c++)
    for (int r = 0; r < a.rows(); r++) SYMX_ASSERT(same(a(r, c), b(r, c)), label);
}
static double fresh(double) { return symx_f64("value"); }
static int fresh(int) { return symx_i32("value"); }
static unsigned char fresh(unsigned char) { return symx_u8("value"); }
template <class M>
static M some(int rows, int n) {
  M m(rows, n);
  for (int c = 0; c < n; c++)
    for (int r = 0; r < rows; r++) m(r, c) = fresh(typename M::Scalar());
  return m;
}
template <class V>
static V somev(int n) {
  V m(n);
  for (int r = 0; r < n; r++) m(r) = fresh(typename V::Scalar());
  return m;
}
typedef Eigen::Matrix2Xd K2;
typedef Eigen::Matrix3Xd K3;
typedef Eigen::VectorXd VD;
typedef Eigen::VectorXi VI;
static Camera::Ptr pinhole(double f = 8, int m = kNull) {
  Distortion::UniquePtr d(make(m, otherCoeffs(m)));
  return Camera::Ptr(new PinholeCamera(Eigen::VectorXd(Eigen::Vector4d(f, 9, 10, 11)), 40, 30, d));
}
static unsigned present(const VisualFrame& f) {
  return f.hasKeypointMeasurements() | f.hasKeypointMeasurementUncertainties() << 1 | f.hasKeypointOrientations() << 2 | f.hasKeypointScores() << 3 | f.hasKeypointScales() << 4 | f.hasKeypoint3DPositions() << 5 |
         f.hasKeypointTimeOffsets() << 6 | f.hasTrackIds() << 7 | f.hasDescriptors() << 8 | f.hasRawImage() << 9;
}
// one kind of data: set, get, swap, change in place, one by one
#define VECTOR_KIND(bit, T, Set, Get, Mut, Swap, One)                                                              \
  {                                                                                                                \
    SYMX_ASSERT(symx_try([&] { f.Get(); }) != 0, "data that is not there is refused");                             \
    T a = somev<T>(n), b = somev<T>(m), a2 = a, b2 = b;                                                            \
    how ? f.Swap(&a) : f.Set(a);                                                                                   \
    if (how) SYMX_ASSERT(a.size() == 0, "what was swapped out");                                                   \
    SYMX_ASSERT(present(f) == 1u << bit, "exactly the data that was set is there");                                \
    equal(f.Get(), a2, "the data that was set");                                                                   \
    uint64_t i = symx_u64("index");                                                                                \
    T::Scalar v{};                                                                                                 \
    const int r = symx_try([&] { v = f.One(i); });                                                                 \
    SYMX_ASSERT((r == 0) == (i < (uint64_t)n), "a wrong index is refused");                                        \
    if (r == 0) SYMX_ASSERT(same(v, a2(symx_concretize(i))), "one by one");                                        \
    f.Swap(&b);                                                                                                    \
    equal(b, a2, "what was swapped out");                                                                          \
    equal(f.Get(), b2, "what was swapped in");                                                                     \
    SYMX_ASSERT(f.Mut() == &f.Get(), "changing in place");                                                         \
    f.Set(a2);                                                                                                     \
    equal(f.Get(), a2, "the data that was set");                                                                   \
    SYMX_ASSERT(present(f) == 1u << bit, "exactly the data that was set is there");                                \
  }                                                                                                                \
  break
#define MATRIX_KIND(bit, T, rows, Set, Get, Mut, Swap, One)                                                        \
  {                                                                                                                \
    SYMX_ASSERT(symx_try([&] { f.Get(); }) != 0, "data that is not there is refused");                             \
    T a = some<T>(rows, n), b = some<T>(rows, m), a2 = a, b2 = b;                                                  \
    how ? f.Swap(&a) : f.Set(a);                                                                                   \
    if (how) SYMX_ASSERT(a.cols() == 0, "what was swapped out");                                                   \
    SYMX_ASSERT(present(f) == 1u << bit, "exactly the data that was set is there");                                \
    equal(f.Get(), a2, "the data that was set");                                                                   \
    uint64_t i = symx_u64("index");                                                                                \
    double v[rows];                                                                                                \
    const int r = symx_try([&] {                                                                                   \
      const Eigen::Matrix<double, rows, 1> p = f.One(i);                                                           \
      for (int k = 0; k < rows; k++) v[k] = p(k);                                                                  \
    });                                                                                                            \
    SYMX_ASSERT((r == 0) == (i < (uint64_t)n), "a wrong index is refused");                                        \
    if (r == 0)                                                                                                    \
      for (int k = 0; k < rows; k++) SYMX_ASSERT(same(v[k], a2(k, symx_concretize(i))), "one by one");             \
    f.Swap(&b);                                                                                                    \
    equal(b, a2, "what was swapped out");                                                                          \
    equal(f.Get(), b2, "what was swapped in");                                                                     \
    SYMX_ASSERT(f.Mut() == &f.Get(), "changing in place");                                                         \
    f.Set(a2);                                                                                                     \
    equal(f.Get(), a2, "the data that was set");                                                                   \
    SYMX_ASSERT(present(f) == 1u << bit, "exactly the data that was set is there");                                \
  }                                                                                                                \
  break
static void kinds() {
  VisualFrame f;
  const int kind = (int)symx_choose("kind", 0, 8), how = (int)symx_choose("how", 0, 1), n = (int)symx_choose("n", 0, 3), m = (int)symx_choose("m", 0, 2);
  SYMX_ASSERT(present(f) == 0 && f.getNumKeypointMeasurements() == 0 && f.getNumDescriptors() == 0, "a new frame is empty");
  switch (kind) {
    case 0: MATRIX_KIND(0, K2, 2, setKeypointMeasurements, getKeypointMeasurements, getKeypointMeasurementsMutable, swapKeypointMeasurements, getKeypointMeasurement);
    case 1: VECTOR_KIND(1, VD, setKeypointMeasurementUncertainties, getKeypointMeasurementUncertainties, getKeypointMeasurementUncertaintiesMutable, swapKeypointMeasurementUncertainties, getKeypointMeasurementUncertainty);
    case 2: VECTOR_KIND(2, VD, setKeypointOrientations, getKeypointOrientations, getKeypointOrientationsMutable, swapKeypointOrientations, getKeypointOrientation);
    case 3: VECTOR_KIND(3, VD, setKeypointScores, getKeypointScores, getKeypointScoresMutable, swapKeypointScores, getKeypointScore);
    case 4: VECTOR_KIND(4, VD, setKeypointScales, getKeypointScales, getKeypointScalesMutable, swapKeypointScales, getKeypointScale);
    case 5: MATRIX_KIND(5, K3, 3, setKeypoint3DPositions, getKeypoint3DPositions, getKeypoint3DPositionsMutable, swapKeypoint3DPositions, getKeypoint3DPosition);
    case 6: VECTOR_KIND(6, VI, setKeypointTimeOffsets, getKeypointTimeOffsets, getKeypointTimeOffsetsMutable, swapKeypointTimeOffsets, getKeypointTimeOffset);
    case 7: VECTOR_KIND(7, VI, setTrackIds, getTrackIds, getTrackIdsMutable, swapTrackIds, getTrackId);
    case 8: {
      SYMX_ASSERT(symx_try([&] { f.getDescriptors(); }) != 0, "data that is not there is refused");
      Desc a = some<Desc>(2, n), b = some<Desc>(3, m), a2 = a, b2 = b;
      const int ta = symx_i32("type"), tb = symx_i32("type");
      if (how) f.swapDescriptors(&a, 0, ta);
      else f.setDescriptors(a, 0, ta);
      SYMX_ASSERT(present(f) == 1u << 8 && f.getNumDescriptors() == (size_t)n && f.getDescriptorSizeBytes() == 2, "exactly the data that was set is there");
      equal(f.getDescriptors(), a2, "the data that was set");
      SYMX_ASSERT(f.hasDescriptorType(ta) && f.getDescriptorBlockType(0) == ta && f.getDescriptorTypes().size() == 1, "the type that was set");
      SYMX_ASSERT(!f.hasDescriptorType(tb) == (ta != tb), "no other type");
      uint64_t i = symx_u64("index");
      const unsigned char* p = nullptr;
      const int r = symx_try([&] { p = f.getDescriptor(i); });
      SYMX_ASSERT((r == 0) == (i < (uint64_t)n), "a wrong index is refused");
      if (r == 0) {
        const int k = (int)symx_concretize(i);
        SYMX_ASSERT(p[0] == a2(0, k) && p[1] == a2(1, k) && f.getDescriptorType(k) == ta, "one by one");
      }
      SYMX_ASSERT(f.swapDescriptors(&b, 0, tb) == ta, "what was swapped out");
      equal(b, a2, "what was swapped out");
      equal(f.getDescriptors(), b2, "what was swapped in");
      SYMX_ASSERT(f.getDescriptorBlockType(0) == tb && f.getDescriptorsMutable() == &f.getDescriptors(), "what was swapped in");
      Eigen::Map<const Desc> map(a2.data(), a2.rows(), a2.cols());
      f.setDescriptors(map, 0, ta);
      equal(f.getDescriptors(), a2, "the data that was set");
      SYMX_ASSERT(f.getDescriptorBlockType(0) == ta && f.getDescriptorTypeSizeBytes(ta) == 2, "the type that was set");
      uint64_t block = symx_u64("block");
      SYMX_ASSERT((symx_try([&] { f.setDescriptors(b2, block, tb); }) == 0) == (block == 0) && (symx_try([&] { f.getDescriptors(block); }) == 0) == (block == 0) && (symx_try([&] { f.getDescriptorBlockType(block); }) == 0) == (block == 0), "a wrong index is refused");
      break;
    }
  }
  symx_reach("kinds");
}
// keypoints of several types, data of one or the other missing
static const int kTypes[3] = {7, 0, -2};
struct All {
  K2 k;
  VD d[4];
  K3 p;
  VI i[2];  // offsets, tracks
  std::vector<Desc> desc;
  std::vector<int> start, size;
};
static void extendAll(VisualFrame& f, All* a, int block, int s, unsigned with, const double* dflt, const int* idflt) {
  const int rows = 1 + block;
  auto growV = [](auto* to, const auto& add, size_t total, auto dflt) {
    const size_t old = to->size();
    to->conservativeResize(total);
    for (size_t k = old; k + add.size() < total; k++) (*to)(k) = dflt;
    for (int k = 0; k < add.size(); k++) (*to)(total - add.size() + k) = add(k);
  };
  auto growM = [](auto* to, const auto& add, size_t total, double dflt) {
    const size_t old = to->cols();
    to->conservativeResize(Eigen::NoChange, total);
    for (size_t k = old; k + add.cols() < total; k++)
      for (int r = 0; r < add.rows(); r++) (*to)(r, k) = dflt;
    for (int k = 0; k < add.cols(); k++)
      for (int r = 0; r < add.rows(); r++) (*to)(r, total - add.cols() + k) = add(r, k);
  };
  a->start.push_back(a->k.cols());
  a->size.push_back(s);
  const K2 k = some<K2>(2, s);
  f.extendKeypointMeasurements(k);
  const size_t total = a->k.cols() + s;
  growM(&a->k, k, total, 0);
  const Desc de = some<Desc>(rows, s);
  if (block == 1) f.extendDescriptors(Eigen::Map<const Desc>(de.data(), rows, s), kTypes[block]);
  else f.extendDescriptors(de, kTypes[block]);
  a->desc.push_back(de);
  for (int j = 0; j < 4; j++)
    if (with >> j & 1) {
      const VD v = somev<VD>(s);
      if (j == 0) f.extendKeypointMeasurementUncertainties(v, dflt[j]);
      if (j == 1) f.extendKeypointOrientations(v, dflt[j]);
      if (j == 2) f.extendKeypointScores(v, dflt[j]);
      if (j == 3) f.extendKeypointScales(v, dflt[j]);
      growV(&a->d[j], v, total, dflt[j]);
    }
  if (with >> 4 & 1) {
    const K3 v = some<K3>(3, s);
    f.extendKeypoint3DPositions(v, dflt[4]);
    growM(&a->p, v, total, dflt[4]);
  }
  for (int j = 0; j < 2; j++)
    if (with >> (5 + j) & 1) {
      const VI v = somev<VI>(s);
      j ? f.extendTrackIds(v, idflt[j]) : f.extendKeypointTimeOffsets(v, idflt[j]);
      growV(&a->i[j], v, total, idflt[j]);
    }
}
static void compareAll(const VisualFrame& f, const All& a, const char* label) {
  SYMX_ASSERT(f.getNumKeypointMeasurements() == (size_t)a.k.cols() && f.getNumDescriptors() == (size_t)a.k.cols(), label);
  equal(f.getKeypointMeasurements(), a.k, label);
  if (f.hasKeypointMeasurementUncertainties()) equal(f.getKeypointMeasurementUncertainties(), a.d[0], label);
  if (f.hasKeypointOrientations()) equal(f.getKeypointOrientations(), a.d[1], label);
  if (f.hasKeypointScores()) equal(f.getKeypointScores(), a.d[2], label);
  if (f.hasKeypointScales()) equal(f.getKeypointScales(), a.d[3], label);
  if (f.hasKeypoint3DPositions()) equal(f.getKeypoint3DPositions(), a.p, label);
  if (f.hasKeypointTimeOffsets()) equal(f.getKeypointTimeOffsets(), a.i[0], label);
  if (f.hasTrackIds()) equal(f.getTrackIds(), a.i[1], label);
  for (size_t b = 0; b < a.desc.size(); b++) {
    equal(f.getDescriptors(b), a.desc[b], label);
    SYMX_ASSERT(f.getDescriptorBlockType(b) == kTypes[b], label);
  }
}
#define OF_TYPE(data, All, One, have)                                                     \
  if (have) {                                                                             \
    const bool whole = (size_t)(data).size() >= (size_t)(start + size);                   \
    SYMX_ASSERT((symx_try([&] { f.All(t); }) == 0) == whole, "a type whose data is missing is refused"); \
    if (whole) equal(f.All(t), (data).segment(start, size), "the data of a type");        \
    if (whole)                                                                            \
      for (int i = 0; i < size; i++) SYMX_ASSERT(same(f.One(i, t), (data)(start + i)), "the data of a type, one by one"); \
    SYMX_ASSERT(symx_try([&] { f.One(beyond, t); }) != 0, "a wrong index is refused");    \
  }
#define OF_TYPE_M(data, All, One, have)                                                   \
  if (have) {                                                                             \
    const bool whole = (size_t)(data).cols() >= (size_t)(start + size);                   \
    SYMX_ASSERT((symx_try([&] { f.All(t); }) == 0) == whole, "a type whose data is missing is refused"); \
    if (whole) equal(f.All(t), (data).middleCols(start, size), "the data of a type");     \
    if (whole)                                                                            \
      for (int i = 0; i < size; i++) equal(f.One(i, t), (data).col(start + i), "the data of a type, one by one"); \
    SYMX_ASSERT(symx_try([&] { f.One(beyond, t); }) != 0, "a wrong index is refused");    \
  }
static void types() {
  VisualFrame f;
  All a;
  const int blocks = (int)symx_choose("blocks", 1, symx_param("blocks", 2));
  const double dflt[5] = {symx_f64("default"), symx_f64("default"), symx_f64("default"), symx_f64("default"), symx_f64("default")};
  const int idflt[2] = {symx_i32("default"), symx_i32("default")};
  SYMX_ASSERT(f.getNumKeypointMeasurementsOfType(kTypes[0]) == 0, "no keypoints of a type in an empty frame");
  for (int b = 0; b < blocks; b++) {
    // all kinds of data, none, or one half of them
    static const unsigned sets[4] = {127, 0, 85, 42};
    extendAll(f, &a, b, (int)symx_choose("size", 0, 2), sets[symx_choose("with", 0, 3)], dflt, idflt);
  }
  compareAll(f, a, "data is added at the end, the default in front of it where some is missing");
  SYMX_ASSERT(f.getDescriptorTypes().size() == blocks, "one type for each block");
  for (int b = 0; b < blocks; b++) {
    const int t = kTypes[b], start = a.start[b], size = a.size[b];
    uint64_t beyond = symx_u64("beyond");
    symx_assume(beyond >= (uint64_t)size);
    size_t st = 99, sz = 99;
    f.getDescriptorBlockTypeStartAndSize(t, &st, &sz);
    SYMX_ASSERT(st == (size_t)start && sz == (size_t)size && f.hasDescriptorType(t) && f.getDescriptorTypeBlock(t) == (size_t)b && f.getNumKeypointMeasurementsOfType(t) == (size_t)size, "where a type begins and how many keypoints it has");
    equal(f.getDescriptorsOfType(t), a.desc[b], "the data of a type");
    SYMX_ASSERT(f.getDescriptorTypeSizeBytes(t) == (size_t)(1 + b) && f.getDescriptorSizeBytes(b) == (size_t)(1 + b), "descriptor size of a type");
    for (int i = 0; i < size; i++) {
      SYMX_ASSERT(f.getDescriptorType(start + i) == t, "the type of a keypoint");
      const unsigned char* p = f.getDescriptor(start + i);
      for (int r = 0; r <= b; r++) SYMX_ASSERT(p[r] == a.desc[b](r, i), "the descriptor of a keypoint");
    }
    OF_TYPE_M(a.k, getKeypointMeasurementsOfType, getKeypointMeasurementOfType, true)
    OF_TYPE(a.d[0], getKeypointMeasurementUncertaintiesOfType, getKeypointMeasurementUncertaintyOfType, f.hasKeypointMeasurementUncertainties())
    OF_TYPE(a.d[1], getKeypointOrientationsOfType, getKeypointOrientationOfType, f.hasKeypointOrientations())
    OF_TYPE(a.d[2], getKeypointScoresOfType, getKeypointScoreOfType, f.hasKeypointScores())
    OF_TYPE(a.d[3], getKeypointScalesOfType, getKeypointScaleOfType, f.hasKeypointScales())
    OF_TYPE_M(a.p, getKeypoint3DPositionsOfType, getKeypoint3DPositionOfType, f.hasKeypoint3DPositions())
    OF_TYPE(a.i[0], getKeypointTimeOffsetsOfType, getKeypointTimeOffsetOfType, f.hasKeypointTimeOffsets())
    OF_TYPE(a.i[1], getTrackIdsOfType, getTrackIdOfType, f.hasTrackIds())
  }
  SYMX_ASSERT(!f.hasDescriptorType(5) && f.getNumKeypointMeasurementsOfType(5) == 0 && symx_try([&] { f.getKeypointMeasurementsOfType(5); }) != 0, "a type that is not there");
  SYMX_ASSERT(symx_try([&] { f.getDescriptor(a.k.cols()); }) != 0 && symx_try([&] { f.getDescriptorType(a.k.cols()); }) != 0, "a wrong index is refused");
  symx_reach("types");
}
static void noTypes() {
  VisualFrame f;
  f.setKeypointMeasurements(some<K2>(2, 2));
  size_t n = 99;
  const int r = symx_try([&] { n = f.getNumKeypointMeasurementsOfType(symx_i32("type")); });
  SYMX_ASSERT(r == 0 && n == 0, "no keypoints of a type in a frame without descriptors");
  symx_reach("noTypes");
}
static void fill(VisualFrame& f, All* a, int blocks, int most, unsigned with) {
  const double dflt[5] = {0, 0, 0, 0, 0};
  const int idflt[2] = {-1, -1};
  for (int b = 0; b < blocks; b++) extendAll(f, a, b, (int)symx_choose("size", 0, most), with, dflt, idflt);
}
static const unsigned kWith[4] = {127, 64, 64 | 21, 64 | 42};
static void discard() {
  VisualFrame f;
  All a;
  fill(f, &a, (int)symx_choose("blocks", 1, symx_param("blocks", 2)), (int)symx_param("most", 2), kWith[symx_choose("with", 0, 3)]);
  std::vector<size_t> gone(1, 77), expected;
  std::vector<int> kept;
  const int n = a.k.cols();
  f.discardUntrackedObservations(&gone);
  for (int i = 0; i < n; i++) {
    if (a.i[1](i) < 0) expected.push_back(i);
    else kept.push_back(i);
  }
  SYMX_ASSERT(gone.size() == expected.size(), "exactly the untracked keypoints are named");
  for (size_t i = 0; i < gone.size(); i++) SYMX_ASSERT(gone[i] == expected[i], "exactly the untracked keypoints are named");
  All b;
  const int m = kept.size();
  b.k.resize(2, m);
  for (auto& d : b.d) d.resize(m);
  b.p.resize(3, m);
  for (auto& v : b.i) v.resize(m);
  for (int i = 0; i < m; i++) {
    const int k = kept[i];
    b.k.col(i) = a.k.col(k);
    for (int j = 0; j < 4; j++)
      if (a.d[j].size()) b.d[j](i) = a.d[j](k);
    if (a.p.cols()) b.p.col(i) = a.p.col(k);
    for (int j = 0; j < 2; j++)
      if (a.i[j].size()) b.i[j](i) = a.i[j](k);
  }
  for (size_t t = 0; t < a.desc.size(); t++) {
    std::vector<int> mine;
    for (int k : kept)
      if (k >= a.start[t] && k < a.start[t] + a.size[t]) mine.push_back(k - a.start[t]);
    Desc d(a.desc[t].rows(), mine.size());
    for (size_t i = 0; i < mine.size(); i++) d.col(i) = a.desc[t].col(mine[i]);
    b.desc.push_back(d);
  }
  compareAll(f, b, "exactly the tracked keypoints remain, with all their data");
  symx_reach("discard");
}
static void clear() {
  VisualFrame f;
  All a;
  if (symx_choose("filled", 0, 1)) fill(f, &a, (int)symx_choose("blocks", 1, 2), 1, kWith[symx_choose("with", 0, 3)]);
  const cv::Mat image(2, 3, CV_8UC1);
  f.setRawImage(image);
  f.clearKeypointChannels();
  SYMX_ASSERT(f.getNumKeypointMeasurements() == 0 && f.getNumDescriptors() == 0 && f.getKeypointMeasurements().cols() == 0 && f.getKeypointMeasurementUncertainties().size() == 0 && f.getKeypointOrientations().size() == 0 && f.getKeypointScores().size() == 0 &&
                  f.getKeypointScales().size() == 0 && f.getTrackIds().size() == 0, "a cleared frame has no keypoints");
  SYMX_ASSERT(!f.hasKeypoint3DPositions() || f.getKeypoint3DPositions().cols() == 0, "a cleared frame has no keypoints");
  SYMX_ASSERT(!f.hasKeypointTimeOffsets() || f.getKeypointTimeOffsets().size() == 0, "a cleared frame has no keypoints");
  SYMX_ASSERT(f.hasRawImage() && f.getRawImage().data == image.data, "a cleared frame keeps its image");
  VD v = somev<VD>(2);
  f.setKeypointMeasurements(some<K2>(2, 2));
  SYMX_ASSERT(symx_try([&] { f.extendKeypoint3DPositions(some<K3>(3, 2)); }) == 0 && symx_try([&] { f.extendKeypointTimeOffsets(somev<VI>(2)); }) == 0 && symx_try([&] { f.extendKeypointScores(v); }) == 0, "a cleared frame takes new keypoints");
  equal(f.getKeypointScores(), v, "a cleared frame takes new keypoints");
  symx_reach("cleared");
}
static void copies() {
  VisualFrame f;
  All a;
  fill(f, &a, (int)symx_choose("blocks", 1, 2), 1, 127);
  f.setTimestampNanoseconds(symx_i64("time"));
  FrameId id;
  generateId(&id);
  f.setId(id);
  f.setValid(symx_bool("valid"));
  Camera::Ptr cam = pinhole(), raw = pinhole(8, kFish);
  const int with = (int)symx_choose("camera", 0, 1);
  if (with) f.setCameraGeometry(cam);
  f.setRawCameraGeometry(raw);
  std::unique_ptr<VisualFrame> g;
  const int how = (int)symx_choose("how", 0, 3);
  if (how == 0) g.reset(new VisualFrame(f));
  else {
    g.reset(new VisualFrame);
    All old;
    if (how == 2) fill(*g, &old, 2, 1, 42);
    if (how == 3) {  // onto itself and then on
      VisualFrame& self = f;
      f = self;
    }
    *g = f;
  }
  SYMX_ASSERT(g->getTimestampNanoseconds() == f.getTimestampNanoseconds() && g->getId() == id && g->isValid() == f.isValid() && g->getCameraGeometry().get() == (with ? cam.get() : nullptr) && g->getRawCameraGeometry() == raw, "a copy has the data of the original");
  SYMX_ASSERT(present(*g) == present(f), "a copy has the data of the original");
  compareAll(*g, a, "a copy has the data of the original");
  compareAll(f, a, "copying leaves the original alone");
  bool nan = false;
  for (int k = 0; k < a.k.size(); k++) nan = nan | (a.k(k) != a.k(k));
  for (auto& d : a.d)
    for (int k = 0; k < d.size(); k++) nan = nan | (d(k) != d(k));
  for (int k = 0; k < a.p.size(); k++) nan = nan | (a.p(k) != a.p(k));
  symx_assume(!nan);
  SYMX_ASSERT(*g == f && f == *g && g->compareWithoutCameraGeometry(f), "a copy equals the original");
  const int which = (int)symx_choose("which", 0, 12);
  const int last = a.k.cols() - 1;
  bool nocam = true;
  if (which == 0) {
    int64_t t = symx_i64("time2");
    symx_assume(t != f.getTimestampNanoseconds());
    g->setTimestampNanoseconds(t);
  } else if (which == 1) g->setValid(!f.isValid());
  else if (which == 2) {
    g->setCameraGeometry(pinhole());
    nocam = false;
  } else if (which == 3) {
    if (!with) symx_skip();
    g->setCameraGeometry(nullptr);
    nocam = false;
  } else if (which == 4) g->extendKeypointMeasurements(K2::Zero(2, 1));
  else if (which == 5) g->extendDescriptors(Desc(Desc::Zero(1, 1)), 9);
  else if (which == 6) g->setDescriptorTypes(g->getDescriptorTypes() + VI::Ones(g->getDescriptorTypes().size()));
  else if (last < 0) symx_skip();
  else if (which == 7) {
    double v = symx_f64("other");
    symx_assume(v != a.k(1, last));
    (*g->getKeypointMeasurementsMutable())(1, last) = v;
  } else if (which == 8) {
    const int j = (int)symx_choose("vector", 0, 3);
    double v = symx_f64("other");
    symx_assume(v != a.d[j](last));
    VD* d = j == 0 ? g->getKeypointMeasurementUncertaintiesMutable() : j == 1 ? g->getKeypointOrientationsMutable() : j == 2 ? g->getKeypointScoresMutable() : g->getKeypointScalesMutable();
    (*d)(last) = v;
  } else if (which == 9) {
    double v = symx_f64("other");
    symx_assume(v != a.p(2, last));
    (*g->getKeypoint3DPositionsMutable())(2, last) = v;
  } else if (which == 10) (*g->getKeypointTimeOffsetsMutable())(last) ^= 1 << symx_choose("bit", 30, 31);
  else if (which == 11) (*g->getTrackIdsMutable())(last) ^= 1;
  else {
    const int b = a.size.back() ? a.size.size() - 1 : 0;
    (*g->getDescriptorsMutable(b))(b, 0) ^= 1 << symx_choose("bit", 0, 7);
  }
  SYMX_ASSERT(!(*g == f) && !(f == *g), "frames that differ are not equal");
  SYMX_ASSERT(g->compareWithoutCameraGeometry(f) == !nocam, "comparison without the camera");
  compareAll(f, a, "changing a copy leaves the original alone");
  symx_reach("copies");
}
// exact arithmetic from here on
static double real(const char* n, double lo, double hi) {
  double x = symx_f64(n);
  symx_assume((x >= lo) & (x <= hi));
  return x;
}
static void bearings() {
  VisualFrame f;
  Distortion::UniquePtr d(make(kNull, otherCoeffs(kNull)));
  const double fu = real("fu", 0.125, 1000), fv = real("fv", 0.125, 1000), cu = real("cu", 0.125, 1000), cv = real("cv", 0.125, 1000);
  f.setCameraGeometry(Camera::Ptr(new PinholeCamera(Eigen::VectorXd(Eigen::Vector4d(fu, fv, cu, cv)), 40, 30, d)));
  // two types, the second one is asked for
  K2 k[2];
  for (int b = 0; b < 2; b++) {
    const int s = (int)symx_choose("size", b, 1 + b);
    k[b].resize(2, s);
    for (int i = 0; i < k[b].size(); i++) k[b](i) = real("k", -100, 100);
    f.extendKeypointMeasurements(k[b]);
    f.extendDescriptors(Desc(Desc::Zero(2, s)), kTypes[b]);
  }
  const int n = (int)symx_choose("n", 0, 2), size = k[1].cols();
  std::vector<size_t> idx;
  bool bad = false;
  for (int i = 0; i < n; i++) {
    idx.push_back(symx_choose("index", 0, 2));
    bad |= idx[i] >= (size_t)size;
  }
  std::vector<unsigned char> ok(3, 9);
  K3 v;
  const int r = symx_try([&] { v = f.getNormalizedBearingVectors(idx, kTypes[1], &ok); });
  SYMX_ASSERT((r != 0) == bad, "a wrong index is refused");
  if (bad) {
    symx_reach("noBearing");
    return;
  }
  SYMX_ASSERT(v.cols() == n && ok.size() == (size_t)n, "one bearing for each index");
  for (int i = 0; i < n; i++) {
    SYMX_ASSERT(ok[i], "a pinhole camera without distortion gives a ray for every keypoint");
    const double x = (k[1](0, idx[i]) - cu) / fu, y = (k[1](1, idx[i]) - cv) / fv;
    symx_real_eq_impl(v(0, i), x * v(2, i), "a bearing is the direction of its keypoint", 1e-9);
    symx_real_eq_impl(v(1, i), y * v(2, i), "a bearing is the direction of its keypoint", 1e-9);
    SYMX_ASSERT(v(2, i) > 0, "a bearing is the direction of its keypoint");
    symx_real_eq_impl(v(2, i) * v(2, i) * (x * x + y * y + 1), 1, "a bearing has length one", 1e-9);
  }
  symx_reach("bearings");
}
static void rawCoordinates() {
  VisualFrame f;
  const int m = (int)symx_param("model", kNull);
  Distortion::UniquePtr d(make(kNull, otherCoeffs(kNull))), d2(make(m, otherCoeffs(m)));
  const double fu = m ? 6 : real("fu", 0.125, 1000), cu = m ? 9 : real("cu", 0.125, 1000);
  Camera::Ptr cam(new PinholeCamera(Eigen::VectorXd(Eigen::Vector4d(fu, 9, cu, 11)), 40, 30, d)), raw(new PinholeCamera(Eigen::VectorXd(Eigen::Vector4d(4, 5, 10, 11)), 40, 30, d2));
  f.setCameraGeometry(cam);
  f.setRawCameraGeometry(raw);
  const int n = m ? 1 : 2;
  K2 k(2, n);
  for (int i = 0; i < n; i++) {
    k(0, i) = real("u", -100, 100);
    k(1, i) = real("v", -100, 100);
  }
  f.setKeypointMeasurements(k);
  K2 out;
  std::vector<ProjectionResult> res;
  f.toRawImageCoordinatesVectorized(k, &out, &res);
  SYMX_ASSERT(out.cols() == n && res.size() == (size_t)n, "one result for each keypoint");
  for (int i = 0; i < n; i++) {
    Eigen::Vector2d one, two, want;
    const ProjectionResult r1 = f.toRawImageCoordinates(k.col(i), &one), r2 = f.getKeypointInRawImageCoordinates(i, &two);
    const Eigen::Vector3d ray((k(0, i) - cu) / fu, (k(1, i) - 11) / 9, 1);
    const ProjectionResult w = raw->project3(ray, &want);
    SYMX_ASSERT(r1.getDetailedStatus() == w.getDetailedStatus() && r2.getDetailedStatus() == w.getDetailedStatus() && res[i].getDetailedStatus() == w.getDetailedStatus(), "what the raw camera says of the ray of the keypoint");
    for (int c = 0; c < 2; c++) {
      symx_real_eq_impl(one(c), want(c), "the image of the ray of the keypoint in the raw camera", 1e-9);
      symx_real_eq_impl(two(c), want(c), "the image of the ray of the keypoint in the raw camera", 1e-9);
      symx_real_eq_impl(out(c, i), want(c), "the image of the ray of the keypoint in the raw camera", 1e-9);
    }
  }
  symx_reach("rawCoordinates");
}
// rigs of frames
static NCamera::Ptr rig(int n) {
  std::vector<Camera::Ptr> cams;
  TransformationVector T;
  for (int i = 0; i < n; i++) {
    cams.push_back(pinhole(8 + i));
    T.push_back(Transformation(Quaternion(), Position3D(i + 1, 2, 3)));
  }
  NCameraId id;
  generateId(&id);
  return NCamera::Ptr(new NCamera(id, T, cams, "rig"));
}
static VisualFrame::Ptr frameOf(const Camera::ConstPtr& c, int64_t t) {
  VisualFrame::Ptr f(new VisualFrame);
  f->setCameraGeometry(c);
  f->setTimestampNanoseconds(t);
  FrameId id;
  generateId(&id);
  f->setId(id);
  return f;
}
struct Slots { std::vector<VisualFrame*> f; };
static void consistent(VisualNFrame& nf, const Slots& s) {
  const VisualNFrame& c = nf;
  bool all = true;
  SYMX_ASSERT(c.getNumFrames() == s.f.size(), "number of frames");
  for (size_t i = 0; i < s.f.size(); i++) {
    SYMX_ASSERT(c.isFrameSet(i) == (s.f[i] != nullptr) && nf.getFrameShared(i).get() == s.f[i] && c.getFrameShared(i).get() == s.f[i], "the frame that was set last");
    const VisualFrame* p = nullptr;
    const int r = symx_try([&] { p = &c.getFrame(i); });
    SYMX_ASSERT((r == 0) == (s.f[i] != nullptr) && (r || p == s.f[i]), "the frame that was set last");
    bool v = false;
    SYMX_ASSERT((symx_try([&] { v = c.isFrameValid(i); }) == 0) == (s.f[i] != nullptr), "only a frame that is set is asked");
    if (s.f[i]) SYMX_ASSERT(v == s.f[i]->isValid(), "validity of a frame");
    all = all && s.f[i];
  }
  SYMX_ASSERT(c.areAllFramesSet() == all, "all frames are set");
  SYMX_ASSERT(symx_try([&] { c.getFrame(s.f.size()); }) != 0 && symx_try([&] { c.isFrameSet(s.f.size()); }) != 0 && symx_try([&] { nf.unSetFrame(s.f.size()); }) != 0 && symx_try([&] { nf.getFrameShared(s.f.size()); }) != 0 &&
                  symx_try([&] { c.isFrameValid(s.f.size()); }) != 0, "a wrong index is refused");
}
static void slots() {
  const int n = (int)symx_choose("n", 1, 2), steps = (int)symx_param("steps", 2);
  const bool withRig = symx_choose("rig", 0, 1);
  NCamera::Ptr cams = rig(n), others = rig(n), more = rig(n + 1);
  NFramesId id;
  generateId(&id);
  std::unique_ptr<VisualNFrame> nf(withRig ? new VisualNFrame(id, cams) : new VisualNFrame(id, (unsigned)n));
  NCamera* now = withRig ? cams.get() : nullptr;
  Slots s;
  s.f.resize(n);
  std::vector<VisualFrame::Ptr> keep;
  consistent(*nf, s);
  for (int k = 0; k < steps; k++) {
    const size_t i = symx_choose("index", 0, n);
    switch (symx_choose("op", 0, 4)) {
      case 0: {
        const int what = (int)symx_choose("what", 0, 3);  // none, of this rig, of another, of another slot
        VisualFrame::Ptr f;
        const NCamera& r = what == 2 ? *others : now ? *now : *cams;
        if (what) f = frameOf(r.getCameraShared(what == 3 ? (i + 1) % n : i % n), 5);
        if (f) f->setValid(symx_bool("valid"));
        keep.push_back(f);
        const bool ok = i < (size_t)n && f && (!now || f->getCameraGeometry() == now->getCameraShared(i));
        SYMX_ASSERT((symx_try([&] { nf->setFrame(i, f); }) == 0) == ok, "a frame is taken exactly if it is of the camera of the place");
        if (ok) s.f[i] = f.get();
        break;
      }
      case 1: {
        const bool ok = i < (size_t)n;
        SYMX_ASSERT((symx_try([&] { nf->unSetFrame(i); }) == 0) == ok, "a wrong index is refused");
        if (ok) s.f[i] = nullptr;
        break;
      }
      case 2: {
        nf->setNCameras(others);
        now = others.get();
        for (int j = 0; j < n; j++)
          if (s.f[j]) SYMX_ASSERT(s.f[j]->getCameraGeometry() == others->getCameraShared(j), "frames get the cameras of a new rig");
        SYMX_ASSERT(nf->getNCameraShared() == others && &nf->getNCamera() == others.get(), "the rig that was set");
        break;
      }
      case 3: {  // a copy has frames of its own
        std::unique_ptr<VisualNFrame> c(symx_choose("assign", 0, 1) ? new VisualNFrame(*nf) : new VisualNFrame(NFramesId(), 3u));
        *c = *nf;
        SYMX_ASSERT(c->getId() == nf->getId() && c->getNCameraShared() == nf->getNCameraShared(), "a copy has the data of the original");
        SYMX_ASSERT(c->getNumFrames() == (size_t)n, "a copy has as many frames");
        for (int j = 0; j < n; j++) {
          SYMX_ASSERT(c->isFrameSet(j) == (s.f[j] != nullptr), "a copy has the same frames set");
          if (!s.f[j]) continue;
          SYMX_ASSERT(&c->getFrame(j) != s.f[j] && c->getFrame(j) == *s.f[j] && c->getFrame(j).getId() == s.f[j]->getId(), "a copy has frames of its own");
          s.f[j] = c->getFrameShared(j).get();
        }
        if (c->areAllFramesSet()) SYMX_ASSERT(*c == *nf && c->compareWithoutCameraSystem(*nf), "a copy equals the original");
        nf = std::move(c);
        break;
      }
      case 4: {  // onto itself
        VisualNFrame& self = *nf;
        std::vector<bool> had;
        for (int j = 0; j < n; j++) had.push_back(nf->isFrameSet(j));
        *nf = self;
        SYMX_ASSERT(nf->getNumFrames() == (size_t)n, "assigned to itself it keeps its frames");
        for (int j = 0; j < n; j++) {
          SYMX_ASSERT(nf->isFrameSet(j) == had[j], "assigned to itself it keeps its frames");
          s.f[j] = nf->getFrameShared(j).get();
        }
        break;
      }
    }
    consistent(*nf, s);
    if (now) {
      SYMX_ASSERT(nf->getNumCameras() == (size_t)n && &nf->getCamera(n - 1) == &now->getCamera(n - 1) && nf->getCameraId(0) == now->getCameraId(0) && &nf->get_T_C_B(n - 1) == &now->get_T_C_B(n - 1) && nf->hasCameraWithId(now->getCameraId(n - 1)) &&
                      nf->getCameraIndex(now->getCameraId(n - 1)) == (size_t)(n - 1), "the cameras are those of the rig");
    } else {
      SYMX_ASSERT(symx_try([&] { nf->getNCamera(); }) != 0 && symx_try([&] { nf->getNumCameras(); }) != 0, "without a rig there are no cameras");
    }
  }
  SYMX_ASSERT(symx_try([&] { nf->setNCameras(more); }) != 0 && symx_try([&] { nf->setNCameras(nullptr); }) != 0, "a rig of another number of cameras is refused");
  symx_reach("slots");
}
static void times() {
  const int n = (int)symx_choose("n", 1, symx_param("max", 3));
  NCamera::Ptr cams = rig(n);
  VisualNFrame nf(cams);
  SYMX_ASSERT(nf.getId().isValid() && nf.getNumFrames() == (size_t)n, "a frame for each camera");
  int64_t t[4], lo = INT64_MAX, hi = INT64_MIN;
  bool any = false;
  for (int i = 0; i < n; i++) {
    if (!symx_choose("set", 0, 1)) continue;
    t[i] = symx_i64("time");
    symx_assume(t[i] >= 0);
    nf.setFrame(i, frameOf(cams->getCameraShared(i), t[i]));
    lo = t[i] < lo ? t[i] : lo;
    hi = t[i] > hi ? t[i] : hi;
    any = true;
  }
  int64_t a = -5, b = -5;
  const int r = symx_try([&] { a = nf.getMinTimestampNanoseconds(); }), q = symx_try([&] { b = nf.getMaxTimestampNanoseconds(); });
  if (any) SYMX_ASSERT(r == 0 && q == 0 && a == lo && b == hi, "the earliest and the latest time of the frames that are set");
  else SYMX_ASSERT(q != 0, "without a frame there is no latest time");
  symx_reach("times");
}
static void nframeEquality() {
  const int n = 2;
  NCamera::Ptr cams = rig(n);
  VisualNFrame::Ptr a = VisualNFrame::createEmptyTestVisualNFrame(cams, 7);
  for (int i = 0; i < n; i++) {
    SYMX_ASSERT(a->getFrame(i).getTimestampNanoseconds() == 7 && a->getFrame(i).getCameraGeometry() == cams->getCameraShared(i) && a->getFrame(i).getNumKeypointMeasurements() == 0 && a->getFrame(i).getId().isValid(), "an empty frame for each camera");
    a->getFrameShared(i)->setTimestampNanoseconds(symx_i64("time"));
  }
  VisualNFrame b(*a);
  SYMX_ASSERT(*a == b && b == *a && a->compareWithoutCameraSystem(b), "a copy equals the original");
  const int which = (int)symx_choose("which", 0, 4), i = (int)symx_choose("frame", 0, n - 1);
  NFramesId id;
  generateId(&id);
  bool without = false;
  if (which == 0) b.setId(id);
  else if (which == 1) {
    int64_t t = symx_i64("time2");
    symx_assume(t != a->getFrame(i).getTimestampNanoseconds());
    b.getFrameShared(i)->setTimestampNanoseconds(t);
  } else if (which == 2) b.getFrameShared(i)->invalidate();
  else if (which == 3) b.getFrameShared(i)->setTrackIds(VI::Zero(1));
  else {
    b.setNCameras(rig(n));
    without = true;
  }
  SYMX_ASSERT(!(*a == b) && !(b == *a), "different frames are not equal");
  SYMX_ASSERT(a->compareWithoutCameraSystem(b) == without, "comparison without the cameras");
  symx_reach("nframeEquality");
}
static void images() {
  const int n = 2;
  NCamera::Ptr cams = rig(n);
  VisualNFrame::Ptr a = VisualNFrame::createEmptyTestVisualNFrame(cams, 7);
  bool all = true;
  for (int i = 0; i < n; i++) {
    a->getFrameShared(i)->setKeypointMeasurements(K2::Zero(2, 1));
    if (symx_choose("image", 0, 1)) a->getFrameShared(i)->setRawImage(cv::Mat(1, 1, CV_8UC1));
    else all = false;
  }
  SYMX_ASSERT(a->hasRawImagesInAllFrames() == all, "every frame has an image");
  a->clearKeypointChannelsOfAllFrames();
  for (int i = 0; i < n; i++) SYMX_ASSERT(a->getFrame(i).getNumKeypointMeasurements() == 0, "the keypoints of all frames are cleared");
  if (all) {
    a->releaseRawImagesOfAllFrames();
    SYMX_ASSERT(!a->hasRawImagesInAllFrames() && !a->getFrame(0).hasRawImage() && !a->getFrame(1).hasRawImage(), "the images of all frames are released");
  }
  symx_reach("images");
}
static void tracks() {
  const int n = (int)symx_choose("n", 1, symx_param("max", 3));
  NCamera::Ptr cams = rig(2);
  FeatureTrack track(42, 1);
  SYMX_ASSERT(!track.hasObservations() && track.getTrackId() == 42 && symx_try([&] { track.getFirstKeypointIdentifier(); }) != 0 && symx_try([&] { track.getLastKeypointIdentifier(); }) != 0, "a new track is empty");
  double lo[2], hi[2];
  std::vector<VisualNFrame::Ptr> keep;
  for (int i = 0; i < n; i++) {
    VisualNFrame::Ptr a = VisualNFrame::createEmptyTestVisualNFrame(cams, i);
    keep.push_back(a);
    const int c = i & 1;
    K2 k(2, 2);
    for (int j = 0; j < 4; j++) k(j) = symx_is_real_mode() ? real("k", -1000, 1000) : 0;
    a->getFrameShared(c)->setKeypointMeasurements(k);
    a->getFrameShared(c)->setDescriptors(Desc(Desc::Constant(2, 2, i)));
    const int kp = (int)symx_choose("keypoint", 0, 1);
    std::shared_ptr<const VisualNFrame> ca = a;
    track.addKeypointObservationAtBack(ca, c, kp);
    const KeypointIdentifier& id = track.getLastKeypointIdentifier();
    SYMX_ASSERT(track.getTrackLength() == (size_t)(i + 1) && &id == &track.getKeypointIdentifiers().back() && &track.getFirstKeypointIdentifier() == &track.getKeypointIdentifiers().front(), "observations are added at the end");
    SYMX_ASSERT(id.getFrameIndex() == (size_t)c && id.getKeypointIndex() == (size_t)kp && &id.getNFrame() == a.get() && &id.getFrame() == &a->getFrame(c) && id.getNFrameId() == a->getId() && id.getFrameId() == a->getFrame(c).getId() &&
                    id.getCamera() == cams->getCameraShared(c) && &id.get_T_C_B() == &cams->get_T_C_B(c) && id.getDescriptor()[0] == i, "an observation leads to its keypoint");
    for (int j = 0; j < 2; j++) {
      const double v = k(j, kp);
      SYMX_ASSERT(id.getKeypointMeasurement()(j) == v, "an observation leads to its keypoint");
      if (i == 0) lo[j] = hi[j] = v;
      if (v < lo[j]) lo[j] = v;
      if (v > hi[j]) hi[j] = v;
    }
    SYMX_ASSERT(symx_try([&] { track.addKeypointObservationAtBack(ca, 2, 0); }) != 0 && symx_try([&] { track.addKeypointObservationAtBack(ca, c, 2); }) != 0 && symx_try([&] { track.addKeypointObservationAtBack(ca, 1 - c, 0); }) != 0 &&
                    symx_try([&] { track.addKeypointObservationAtBack(nullptr, 0, 0); }) != 0, "a keypoint that is not there is refused");
  }
  if (symx_is_real_mode()) symx_real_eq_impl(track.getDiagonalSqOfDisparityBoundingBox(), (hi[0] - lo[0]) * (hi[0] - lo[0]) + (hi[1] - lo[1]) * (hi[1] - lo[1]), "the squared diagonal of the box around all observations", 1e-9);
  track.popLastKeypointIdentifier();
  SYMX_ASSERT(track.getTrackLength() == (size_t)(n - 1), "the last observation is removed");
  FeatureTrack other(7);
  SYMX_ASSERT((other < track) == (n > 1) && (track > other) == (n > 1) && !(track < other), "tracks are ordered by their length");
  symx_reach("tracks");
}
extern "C" void symx_main() {
  symx_clock_fixed = 1000000000;
  switch (symx_param("case", 0)) {
    case 0: kinds(); break;
    case 1: types(); break;
    case 2: noTypes(); break;
    case 3: discard(); break;
    case 4: clear(); break;
    case 5: copies(); break;
    case 6: bearings(); break;
    case 7: rawCoordinates(); break;
    case 8: slots(); break;
    case 9: times(); break;
    case 10: nframeEquality(); break;
    case 11: images(); break;
    case 12: tracks(); break;
  }
}
