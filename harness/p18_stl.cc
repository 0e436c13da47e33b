// Container helpers: erasing indices, median/mean/deviation, keeping the best, drawing, flattening.
#include "symx.h"
#include <cmath>
#include <cstdint>
#include <list>
#include <random>
#include <string>
#include <vector>
#include <Eigen/Core>
#include <glog/logging.h>
#include <aslam/common/stl-helpers.h>
namespace c = aslam::common;
namespace sh = aslam::common::stl_helpers;
// the seed and every number of the generator are arbitrary (fixed seed: the real generator)
namespace { int draws = 0; }
namespace std {
template <> minstd_rand0::result_type minstd_rand0::operator()() {
  if (symx_param("fixed", 0)) { _M_x = (uint64_t)_M_x * 16807u % 2147483647u; return _M_x; }
  if (++draws > symx_param("draws", 5)) symx_skip();
  return (result_type)symx_range("random", 1, 2147483646);
}
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return symx_u32("seed"); }
}  // namespace std
namespace {
// distinct positions below n in any order (or ascending)
std::vector<size_t> positions(int n, int k, bool ascending, bool* valid) {
  std::vector<size_t> idx;
  *valid = true;
  for (int i = 0; i < k; i++) {
    const uint64_t v = symx_u64("index");
    idx.push_back(v);
    for (int j = 0; j < i; j++) symx_assume(ascending ? idx[j] < v : idx[j] != v);
    *valid = *valid & (v < (uint64_t)n);
  }
  return idx;
}
void eraseVector() {
  const bool container = symx_param("container", 0);
  const int n = (int)symx_choose("n", 0, symx_param("max", 4)), k = (int)symx_choose("k", 0, symx_param("k", 3));
  bool valid; std::vector<size_t> idx = positions(n, k, false, &valid);
  std::vector<uint32_t> data(n), got;
  for (auto& x : data) x = symx_u32("x");
  const std::vector<uint32_t> before = data;
  size_t expected = n;
  if (container) expected = (size_t)symx_choose("expected", std::max(0, n - 1), n + 1);
  if (valid && k && container == false) for (auto& i : idx) i = symx_concretize(i);
  const int r = symx_try([&] {
    if (container) { got = data; sh::eraseIndicesFromContainer(idx, expected, &got); } else got = c::eraseIndicesFromVector(data, idx);
  });
  SYMX_ASSERT(data == before, "the input of a removal is not changed");
  SYMX_ASSERT((r == 0) == (valid & (k <= n) & ((int)expected == n)), "positions outside the data or a wrong count are refused, others accepted");
  if (r) { symx_reach("eraseRefused"); return; }
  uint32_t gone = 0;
  for (auto i : idx) gone |= 1u << symx_concretize(i);
  SYMX_ASSERT((int)got.size() == n - k, "as many elements are removed as positions were given");
  size_t at = 0;
  for (int i = 0; i < n; i++) if (!(gone >> i & 1)) { SYMX_ASSERT(got.at(at) == data[i], "the other elements stay in their order"); at++; }
  symx_reach("eraseVector");
}
template <class M, class G> void eraseMatrix(int fixed, bool cols, G erase) {
  const int n = (int)symx_choose("n", 0, symx_param("max", 4)), k = (int)symx_choose("k", 0, symx_param("k", 3));
  bool valid; std::vector<size_t> idx = positions(n, k, true, &valid);
  const size_t expected = (size_t)symx_choose("expected", n, n + 1);
  M data; data.resize(cols ? fixed : n, cols ? n : fixed);
  if (data.size()) symx_bytes(data.data(), sizeof(typename M::Scalar) * data.size(), "x");
  M got = data;
  if (valid) for (auto& i : idx) i = symx_concretize(i);
  const int r = symx_try([&] { erase(idx, expected, &got); });
  SYMX_ASSERT((r == 0) == (valid & (k <= n) & ((int)expected == n)), "positions outside the data or a wrong count are refused, others accepted");
  if (r) { symx_reach("eraseRefused"); return; }
  SYMX_ASSERT(cols ? ((got.rows() == data.rows()) & (got.cols() == n - k)) : ((got.cols() == data.cols()) & (got.rows() == n - k)), "as many columns or rows are removed as positions were given");
  uint32_t gone = 0;
  for (auto i : idx) gone |= 1u << i;
  int at = 0;
  for (int i = 0; i < n; i++) {
    if (gone >> i & 1) continue;
    bool same = true;
    for (int j = 0; j < fixed; j++) same = same & ((cols ? got(j, at) : got(at, j)) == (cols ? data(j, i) : data(i, j)));
    SYMX_ASSERT(same, "the other columns or rows stay in their order"); at++;
  }
  symx_reach("eraseMatrix");
}
template <int Axis> void eraseAdapter() {
  typedef Eigen::Matrix<uint16_t, -1, -1> M;
  eraseMatrix<M>((int)symx_choose("other", 0, 2), Axis == sh::kColumns, [](const std::vector<size_t>& idx, size_t expected, M* m) {
    sh::OneDimensionAdapter<uint16_t, Axis> a(m);
    sh::eraseIndicesFromContainer(idx, expected, &a);
  });
}
template <class M> void eraseEigen(bool cols) {
  eraseMatrix<M>(cols ? M::RowsAtCompileTime : M::ColsAtCompileTime, cols, [](const std::vector<size_t>& idx, size_t expected, M* m) { sh::eraseIndicesFromContainer(idx, expected, m); });
}
template <class T> T value();
template <> int32_t value<int32_t>() { return symx_i32("x"); }
template <> double value<double>() { double d; if (symx_is_real_mode()) d = symx_f64("x"); else { symx_bytes(&d, 8, "x"); symx_assume(std::fabs(d) <= 1e300); } return d; }
// every weak ordering of n elements, the values themselves arbitrary
template <class T> void median() {
  const int n = (int)symx_param("n", 3);
  const int levels = (int)symx_choose("levels", 1, n);
  std::vector<T> sorted(levels), v(n);
  for (int i = 0; i < levels; i++) { sorted[i] = value<T>(); if (i) symx_assume(sorted[i - 1] < sorted[i]); }
  std::vector<int> rank(n), count(levels, 0);
  for (int i = 0; i < n; i++) { rank[i] = (int)symx_choose("rank", 0, levels - 1); count[rank[i]]++; v[i] = sorted[rank[i]]; }
  for (int k : count) if (!k) symx_skip();
  const double m = c::median(v.begin(), v.end());
  std::vector<int> order;
  for (int l = 0; l < levels; l++) order.insert(order.end(), count[l], l);
  const double expected = n & 1 ? (double)sorted[order[n / 2]] : ((double)sorted[order[n / 2]] + sorted[order[n / 2 - 1]]) / 2.0;
  SYMX_ASSERT(m == expected, n & 1 ? "the median of an odd number of elements is the middle one" : "the median of an even number of elements is halfway between the middle two");
  uint32_t same = 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) same += v[i] == sorted[rank[j]];
  uint32_t expect = 0; for (int k : count) expect += k * k;
  SYMX_ASSERT(same == expect, "computing a median keeps the elements");
  symx_reach("median");
}
void meanDeviation() {
  const int n = (int)symx_param("n", 3);
  std::vector<double> v(n); for (auto& x : v) x = value<double>();
  const double mu = c::mean(v.begin(), v.end()), sd = c::stddev(v.begin(), v.end());
  double sum = 0.0; for (double x : v) sum += x;
  symx_real_eq_impl(mu * n, sum, "the mean times the count is the sum", 1e-9);
  double var = 0.0; for (double x : v) var += (x - mu) * (x - mu);
  symx_real_eq_impl(sd * sd * n, var, "the squared deviation times the count is the sum of squared differences", 1e-9);
  SYMX_ASSERT(sd >= 0.0, "a deviation is not negative");
  symx_reach("meanDeviation");
}
void emptyRefused() {
  std::vector<double> v;
  SYMX_ASSERT(symx_try([&] { c::median(v.begin(), v.end()); }) != 0, "the median of nothing is refused");
  SYMX_ASSERT(symx_try([&] { c::mean(v.begin(), v.end()); }) != 0, "the mean of nothing is refused");
  SYMX_ASSERT(symx_try([&] { c::stddev(v.begin(), v.end()); }) != 0, "the deviation of nothing is refused");
  symx_reach("emptyRefused");
}
struct Item { int32_t w; int id; };
void keepBest() {
  const int n = (int)symx_choose("n", 0, symx_param("max", 4));
  const size_t keep = symx_choose("keep", 0, n + 1);
  std::vector<Item> v; for (int i = 0; i < n; i++) v.push_back(Item{symx_i32("w"), i});
  const std::vector<Item> before = v;
  std::vector<Item> removed;
  const size_t r = c::keepOnlyNSortedElements(keep, [](const Item& a, const Item& b) { return a.w > b.w; }, &v, [&](const Item& i) { removed.push_back(i); });
  SYMX_ASSERT(r == v.size() && r == std::min(keep, (size_t)n) && removed.size() + r == (size_t)n, "the wanted number of elements is kept, the action sees every other one");
  uint32_t seen = 0; bool weights = true, best = true;
  for (auto& x : v) { const uint32_t i = (uint32_t)symx_concretize(x.id); seen += 1u << (4 * i); weights = weights & (x.w == before.at(i).w); for (auto& y : removed) best = best & (x.w >= y.w); }
  for (auto& x : removed) { const uint32_t i = (uint32_t)symx_concretize(x.id); seen += 1u << (4 * i); weights = weights & (x.w == before.at(i).w); }
  uint32_t all = 0; for (int i = 0; i < n; i++) all += 1u << (4 * i);
  SYMX_ASSERT(seen == all, "every element is either kept or given to the action, once");
  SYMX_ASSERT(weights, "elements are not altered");
  SYMX_ASSERT(best, "no removed element is better than a kept one");
  symx_reach("keepBest");
}
void draw() {
  const int n = (int)symx_choose("n", 0, symx_param("max", 4));
  const size_t want = symx_choose("want", 1, n + 1);
  std::vector<uint32_t> in(n), out(symx_choose("old", 0, 1)), twice;
  for (int i = 0; i < n; i++) in[i] = 100 + 3 * i;
  const std::vector<uint32_t> before = in;
  if (symx_param("fixed", 0)) {
    c::drawNRandomElements(want, in, &out, true);
    c::drawNRandomElements(want, in, &twice, true);
    SYMX_ASSERT(out == twice, "a fixed seed draws the same elements every time");
  } else c::drawNRandomElements(want, in, &out);
  SYMX_ASSERT(in == before, "drawing does not change the input");
  SYMX_ASSERT(out.size() == std::min((size_t)n, want), "the wanted number of elements is drawn");
  uint32_t seen = 0; bool once = true;
  for (auto x : out) { const uint32_t i = (uint32_t)(symx_concretize(x) - 100) / 3; once = once && i < (uint32_t)n && !(seen >> i & 1) && in[i] == x; seen |= 1u << i; }
  SYMX_ASSERT(once, "every element is drawn at most once and comes from the input");
  symx_reach("draw");
}
void flatten() {
  const int n = (int)symx_choose("n", 0, symx_param("max", 4));
  Eigen::Matrix<double, 3, Eigen::Dynamic> m(3, n);
  if (n) symx_bytes(m.data(), 24 * n, "x");
  Aligned<std::vector, Eigen::Vector3d> out(symx_choose("old", 0, 2));
  c::convertEigenToStlVector(m, &out);
  SYMX_ASSERT((int)out.size() == n, "every column becomes one element");
  for (int i = 0; i < n; i++) {
    bool same = true;
    for (int b = 0; b < 24; b++) same = same & (reinterpret_cast<char*>(&out[i])[b] == reinterpret_cast<char*>(m.data())[24 * i + b]);
    SYMX_ASSERT(same, "columns keep their content and order");
  }
  std::vector<std::vector<int>> nested(symx_choose("lists", 0, 3));
  size_t total = 0;
  for (auto& l : nested) { l.resize(symx_choose("len", 0, 2)); total += l.size(); }
  SYMX_ASSERT(c::countNumberOfElementsInNestedList(nested) == total, "nested lists are counted completely");
  symx_reach("flatten");
}
}  // namespace
void symx_main(void) {
  switch (symx_param("case", 0)) {
    case 0: eraseVector(); break;
    case 1: eraseEigen<Eigen::Matrix<uint16_t, 2, Eigen::Dynamic>>(true); break;
    case 2: eraseEigen<Eigen::Matrix<uint8_t, Eigen::Dynamic, 3>>(false); break;
    case 3: eraseAdapter<sh::kColumns>(); break;
    case 4: eraseAdapter<sh::kRows>(); break;
    case 5: median<int32_t>(); break;
    case 6: median<double>(); break;
    case 7: meanDeviation(); break;
    case 8: emptyRefused(); break;
    case 9: keepBest(); break;
    case 10: draw(); break;
    case 11: flatten(); break;
  }
}
