// Binary descriptors: Hamming distance, bit operations, views and copies, aggregates.
#include "symx.h"
#include <cstdint>
#include <cstring>
#include <cmath>
#include <limits>
#include <numeric>
#include <random>
#include <vector>
#include <Eigen/Core>
#include <glog/logging.h>
#include <aslam/common/feature-descriptor-ref.h>
#include <aslam/common/descriptor-utils.h>
namespace c = aslam::common;
namespace u = aslam::common::descriptor_utils;
namespace {
// distance of two descriptors of n bytes through each of the entry points
uint32_t distance(const unsigned char* a, const unsigned char* b, int n, int how) {
  switch (how) {
    case 0: return c::Hamming::evaluate(a, b, n);
    case 1: return c::Hamming()(a, b, n);
    case 2: return c::Hamming::PopcntofXORed(a, b, n / 16);
    default: { c::FeatureDescriptorConstRef x(a, n), y(b, n); return c::GetNumBitsDifferent(x, y); }
  }
}
struct alignas(16) Buf { unsigned char d[512]; };
// Changing one bit of one descriptor changes the distance by exactly one, up
// if the descriptors agreed in it and down otherwise; the distance to itself
// is zero.  Together with symmetry that determines the distance.
void hammingStep() {
  const int n = (int)symx_param("bytes", 16), how = (int)symx_param("how", 0);
  static Buf a, b, e;
  // in long descriptors only the words at both ends are arbitrary, those
  // between differ in all bits (or in none)
  const int ends = (int)symx_param("ends", n);
  if (ends < n) memset(a.d, (int)symx_param("between", 255), n);
  for (int i = 0; i < n; i++) if (i < ends || i >= n - ends) { a.d[i] = symx_u8("a"); b.d[i] = symx_u8("b"); }
  const int byte = (int)symx_param("byte", -1) >= 0 ? (int)symx_param("byte", 0) : (int)symx_choose("byte", 0, n - 1);
  const int bit = (int)symx_range("bit", 0, 7);
  memcpy(e.d, b.d, n);
  e.d[byte] ^= (unsigned char)(1u << bit);
  const bool agreed = (((a.d[byte] ^ b.d[byte]) >> bit) & 1) == 0;
  const uint32_t d = distance(a.d, b.d, n, how), d2 = distance(a.d, e.d, n, how);
  SYMX_ASSERT(d2 == d + (agreed ? 1u : ~0u), "one changed bit changes the distance by one");
  symx_reach("hammingStep");
}
void hammingEnds() {
  const int n = (int)symx_param("bytes", 16), how = (int)symx_param("how", 0);
  static Buf a, b;
  symx_bytes(a.d, n, "a");
  for (int i = 0; i < n; i++) b.d[i] = (unsigned char)~a.d[i];
  SYMX_ASSERT(distance(a.d, a.d, n, how) == 0, "a descriptor has distance zero to itself");
  SYMX_ASSERT(distance(a.d, b.d, n, how) == 8u * n, "a descriptor differs from its complement in every bit");
  symx_reach("hammingEnds");
}
void hammingCount() {
  const int n = (int)symx_param("bytes", 16), how = (int)symx_param("how", 0);
  static Buf a, b;
  symx_bytes(a.d, n, "a"); symx_bytes(b.d, n, "b");
  uint32_t want = 0;
  for (int i = 0; i < n; i++) for (int k = 0; k < 8; k++) want += ((a.d[i] ^ b.d[i]) >> k) & 1;
  const uint32_t d = distance(a.d, b.d, n, how);
  SYMX_ASSERT(d == want, "the distance counts the differing bits");
  SYMX_ASSERT(d == distance(b.d, a.d, n, how), "the distance is symmetric");
  symx_reach("hammingCount");
}
void unequalSizes() {
  static Buf a, b;
  const int n = 16 * (int)symx_choose("words", 1, 3), k = (int)symx_choose("other", 0, 64);
  if (n == k) symx_skip();
  const int r = symx_try([&] { c::FeatureDescriptorConstRef x(a.d, n), y(b.d, k); volatile size_t d = c::GetNumBitsDifferent(x, y); (void)d; });
  SYMX_ASSERT(r == 1, "descriptors of different sizes are not compared");
  symx_reach("unequalSizes");
}
// ------------------------------------------------------------ bits
void bitsRef() {
  const int n = (int)symx_param("bytes", 3);
  static Buf raw;
  unsigned char* p = raw.d + 8;  // bytes around the descriptor must not change
  symx_bytes(raw.d, n + 16, "b");
  Buf old = raw;
  c::FeatureDescriptorRef d(p, n, false);
  const size_t pos = (size_t)symx_range("pos", 0, 8 * n - 1);
  const int op = (int)symx_choose("op", 0, 2);
  const bool before = (old.d[8 + pos / 8] >> (pos % 8)) & 1;
  if (op == 0) {
    c::SetBit(pos, &d);
    SYMX_ASSERT(c::GetBit(pos, d.ToConstRef()), "a bit that was set reads as set");
  } else if (op == 1) {
    c::FlipBit(pos, &d);
    SYMX_ASSERT(c::GetBit(pos, d.ToConstRef()) == !before, "a flipped bit reads inverted");
  } else SYMX_ASSERT(c::GetBit(pos, c::FeatureDescriptorConstRef(p, n)) == before, "a bit reads as stored");
  for (int i = 0; i < n + 16; i++) {
    unsigned char want = old.d[i];
    if (i >= 8 && i < 8 + n) {
      const unsigned char m = (unsigned char)((pos / 8 == (size_t)(i - 8)) ? 1u << (pos % 8) : 0u);
      if (op == 0) want |= m; else if (op == 1) want ^= m;
    }
    SYMX_ASSERT(raw.d[i] == want, "changing one bit leaves every other bit alone");
  }
  symx_reach("bitsRef");
}
void bitsEigen() {
  const int n = (int)symx_param("bytes", 3);
  u::DescriptorType d(n), old(n);
  symx_bytes(d.data(), n, "b"); old = d;
  const unsigned pos = (unsigned)symx_range("pos", 0, 8 * n - 1);
  const bool before = (old.data()[pos / 8] >> (pos % 8)) & 1;
  SYMX_ASSERT(u::getBit(pos, d) == before, "a bit reads as stored");
  u::setBit(pos, &d);
  SYMX_ASSERT(u::getBit(pos, d), "a bit that was set reads as set");
  SYMX_ASSERT(d.rows() == n, "setting a bit keeps the size");
  for (int i = 0; i < n; i++) {
    const unsigned char m = (unsigned char)((pos / 8 == (unsigned)i) ? 1u << (pos % 8) : 0u);
    SYMX_ASSERT(d.data()[i] == (unsigned char)(old.data()[i] | m), "changing one bit leaves every other bit alone");
  }
  symx_reach("bitsEigen");
}
void bitsRefused() {
  const int n = (int)symx_param("bytes", 3);
  static Buf raw; symx_bytes(raw.d, n, "b");
  c::FeatureDescriptorRef d(raw.d, n, false);
  u::DescriptorType e(n); symx_bytes(e.data(), n, "e");
  const size_t pos = symx_u64("pos");
  symx_assume(pos >= 8u * n);
  int r = 0;
  switch (symx_choose("op", 0, 6)) {
    case 0: r = symx_try([&] { c::SetBit(pos, &d); }); break;
    case 1: r = symx_try([&] { c::FlipBit(pos, &d); }); break;
    case 2: r = symx_try([&] { c::GetBit(pos, d.ToConstRef()); }); break;
    case 3: symx_assume(pos < (1u << 30)); r = symx_try([&] { u::getBit((unsigned)pos, e); }); break;
    case 4: symx_assume(pos < (1u << 30)); r = symx_try([&] { u::setBit((unsigned)pos, &e); }); break;
    case 5: r = symx_try([&] { d[pos / 8] = 1; }); break;
    case 6: r = symx_try([&] { const c::FeatureDescriptorConstRef k(raw.d, n); volatile unsigned char x = k[pos / 8]; (void)x; }); break;
  }
  SYMX_ASSERT(r == 1, "a position outside the descriptor is refused");
  symx_reach("bitsRefused");
}
void flipRandom() {
  const int n = (int)symx_param("bytes", 1);
  static Buf raw; symx_bytes(raw.d, n, "b");
  Buf old = raw;
  c::FeatureDescriptorRef d(raw.d, n, false);
  const size_t k = (size_t)symx_choose("flips", 0, symx_param("max", 8 * n - 1));
  c::FlipNRandomBits(k, &d);
  unsigned cnt = 0;
  for (int i = 0; i < n; i++) for (int j = 0; j < 8; j++) cnt += ((raw.d[i] ^ old.d[i]) >> j) & 1;
  SYMX_ASSERT(cnt == k, "flipping n random bits changes exactly n bits");
  symx_reach("flipRandom");
}
// ------------------------------------------------------------ views and owners
const int kMax = 4;
struct Shadow { bool owned; int size; int ext; unsigned char v[kMax]; };  // ext: index of the viewed buffer, -1 none
unsigned char g_ext[2][kMax];
unsigned char byteOf(const Shadow& s, int i) { return s.owned ? s.v[i] : g_ext[s.ext][i]; }
void same(const c::FeatureDescriptorRef& r, const Shadow& s) {
  SYMX_ASSERT((int)r.size() == s.size, "a descriptor keeps the size it was given");
  if (!s.owned && s.ext < 0) { SYMX_ASSERT(r.data() == nullptr, "an empty descriptor refers to nothing"); return; }
  if (!s.owned) SYMX_ASSERT(r.data() == g_ext[s.ext], "a view refers to the memory it was given");
  else SYMX_ASSERT((r.data() != g_ext[0]) & (r.data() != g_ext[1]), "an owning descriptor has memory of its own");
  for (int i = 0; i < s.size; i++) SYMX_ASSERT(r[i] == byteOf(s, i), "a descriptor holds the bytes it was given");
}
void ownership() {
  const int steps = (int)symx_param("steps", 3);
  const uint64_t live = symx_heap_bytes();
  bool leakOk;
  {
    symx_bytes(g_ext, sizeof g_ext, "ext");
    c::FeatureDescriptorRef a, b;
    c::FeatureDescriptorRef* obj[2] = {&a, &b};
    Shadow sh[2] = {{false, 0, -1, {0}}, {false, 0, -1, {0}}};
    for (int k = 0; k < steps; k++) {
      const int x = (int)symx_choose("target", 0, 1), y = 1 - x;
      c::FeatureDescriptorRef& t = *obj[x]; Shadow& s = sh[x];
      switch (symx_choose("op", 0, 8)) {
        case 0: {  // becomes a view
          if (s.owned) symx_skip();
          const int e = (int)symx_choose("buffer", 0, 1), n = (int)symx_choose("size", 1, kMax);
          t = c::FeatureDescriptorRef(g_ext[e], n, false);
          s.owned = false; s.size = n; s.ext = e; break; }
        case 1: {  // allocates
          const int n = (int)symx_choose("size", 1, kMax);
          const bool keep = s.owned && s.size == n;
          t.Allocate(n);
          if (!keep) for (int i = 0; i < n; i++) { s.v[i] = symx_u8("fill"); t[i] = s.v[i]; }
          s.owned = true; s.size = n; break; }
        case 2: {  // released
          t.Release();
          if (s.owned) { s.owned = false; s.ext = -1; SYMX_ASSERT(t.data() == nullptr, "a released descriptor refers to nothing");
            t.set_data(nullptr, false); t.set_size_bytes(0); s.size = 0; }
          break; }
        case 3: {  // assigned from the other one
          if (!sh[y].owned && sh[y].ext < 0 && s.owned) symx_skip();
          *obj[x] = *obj[y];
          if (s.owned || sh[y].owned) { for (int i = 0; i < sh[y].size; i++) s.v[i] = byteOf(sh[y], i); s.owned = true; s.size = sh[y].size; }
          else s = sh[y];
          break; }
        case 4: {  // copied and destroyed again
          c::FeatureDescriptorRef copy(t);
          same(copy, s);
          if (s.owned) { SYMX_ASSERT(copy.data() != t.data(), "the copy of an owning descriptor has memory of its own"); copy.SetZero(); }
          break; }
        case 5: {  // a byte changes
          if (!s.size) symx_skip();
          const int i = (int)symx_range("index", 0, (int)symx_concretize((uint64_t)s.size) - 1);
          const unsigned char v = symx_u8("value");
          t[i] = v;
          if (s.owned) s.v[i] = v; else g_ext[s.ext][i] = v;
          break; }
        case 6: t.SetZero(); for (int i = 0; i < s.size; i++) if (s.owned) s.v[i] = 0; else g_ext[s.ext][i] = 0; break;
        case 7: t = *obj[x]; break;
        case 8: {  // seen read-only
          c::FeatureDescriptorConstRef r = t.ToConstRef(), q(r);
          SYMX_ASSERT((r.data() == t.data()) & (r.size() == t.size()), "a read-only view refers to the same bytes");
          SYMX_ASSERT(q == r, "equal views compare equal");
          break; }
      }
      same(a, sh[0]); same(b, sh[1]);
      bool eq = (sh[0].size == sh[1].size) & ((sh[0].owned || sh[0].ext >= 0) == (sh[1].owned || sh[1].ext >= 0));
      if (eq) for (int i = 0; i < sh[0].size; i++) eq = eq & (byteOf(sh[0], i) == byteOf(sh[1], i));
      SYMX_ASSERT((a == b) == eq, "descriptors are equal exactly if their bytes are");
    }
  }
  leakOk = symx_heap_bytes() == live;
  SYMX_ASSERT(leakOk, "destroyed descriptors leave no memory behind");
  symx_reach("ownership");
}
void randomFill() {
  c::FeatureDescriptorRef a((uint32_t)5), b((uint32_t)5);
  const int seed = (int)symx_choose("seed", 0, 2);
  a.SetRandom(seed); b.SetRandom(seed);
  SYMX_ASSERT(a == b, "the same seed gives the same descriptor");
  symx_reach("randomFill");
}
// ------------------------------------------------------------ aggregates
void fill(u::DescriptorsType* m, int rows, int cols, int bytes) {
  m->resize(rows, cols); m->setZero();
  for (int j = 0; j < cols; j++) for (int i = 0; i < bytes; i++) m->data()[j * rows + (rows / bytes) * i] = symx_u8("d") & (unsigned char)symx_param("mask", 255);
}
void binaryMean() {
  const int rows = (int)symx_param("rows", 1), cols = (int)symx_param("cols", 3), api = (int)symx_param("api", 0);
  u::DescriptorsType m; fill(&m, rows, cols, rows);
  u::DescriptorType mean;
  c::FeatureDescriptorRef fm((uint32_t)rows);
  const u::DescriptorsType copy = m;
  if (api == 0) u::descriptorMeanRoundedToBinaryValue(m, &mean);
  else {
    for (int i = 0; i < rows; i++) fm[i] = symx_u8("before");
    std::vector<c::FeatureDescriptorRef> refs; std::vector<c::FeatureDescriptorRefBase<unsigned char, c::WriteAccessors>*> ptrs;
    refs.reserve(cols);
    for (int j = 0; j < cols; j++) refs.emplace_back(m.data() + j * rows, (size_t)rows, false);
    for (auto& r : refs) ptrs.push_back(&r);
    c::DescriptorMean(ptrs, &fm);
  }
  SYMX_ASSERT(api == 1 || mean.rows() == rows, "the mean has the size of the descriptors");
  for (int i = 0; i < rows; i++) for (int k = 0; k < 8; k++) {
    int sum = 0;
    for (int j = 0; j < cols; j++) sum += (copy.data()[j * rows + i] >> k) & 1;
    const unsigned char got = api == 0 ? mean.data()[i] : fm[i];
    SYMX_ASSERT(((got >> k) & 1) == (2 * sum > cols), "a bit of the mean is set exactly if most descriptors have it set");
  }
  for (int i = 0; i < rows * cols; i++) SYMX_ASSERT(m.data()[i] == copy.data()[i], "the descriptors themselves are not changed");
  symx_reach("binaryMean");
}
void noMean() {
  c::FeatureDescriptorRef fm((uint32_t)2); unsigned char b0 = symx_u8("b"), b1 = symx_u8("b"); fm[0] = b0; fm[1] = b1;
  std::vector<c::FeatureDescriptorRef*> none;
  c::DescriptorMean(none, &fm);
  SYMX_ASSERT((fm[0] == b0) & (fm[1] == b1), "the mean of no descriptors leaves the result alone");
  symx_reach("noMean");
}
void closestToMedian() {
  const int spread = (int)symx_param("spread", 0);
  const int rows = spread ? 32 : 16, cols = (int)symx_param("cols", 3), bytes = (int)symx_param("bytes", 1);
  u::DescriptorsType m; fill(&m, rows, cols, bytes);
  // far apart from each other, so that the totals are large
  if (spread) for (int j = 0; j < cols; j++) for (int i = 0; i < (j == cols - 1 ? spread + 5 : spread); i++) m.data()[j * rows + 1 + spread * j + i] = 255;
  size_t idx = 99;
  u::getIndexOfDescriptorClosestToMedian(m, &idx);
  SYMX_ASSERT(idx < (size_t)cols, "the chosen descriptor is one of those given");
  int tot[8];
  for (int j = 0; j < cols; j++) {
    tot[j] = 0;
    for (int l = 0; l < cols; l++) for (int i = 0; i < rows; i++) {
      const unsigned char x = m.data()[j * rows + i] ^ m.data()[l * rows + i];
      for (int k = 0; k < 8; k++) tot[j] += (x >> k) & 1;
    }
  }
  idx = (size_t)symx_concretize(idx);
  for (int j = 0; j < cols; j++) SYMX_ASSERT(tot[idx] <= tot[j], "no other descriptor has a smaller total distance to all");
  symx_reach("closestToMedian");
}
void floatMean() {
  const int rows = (int)symx_param("rows", 1), cols = (int)symx_param("cols", 3);
  u::DescriptorsType m; fill(&m, rows, cols, rows);
  Eigen::VectorXd mean(3);
  u::floatDescriptorMean(m, &mean);
  SYMX_ASSERT(mean.rows() == rows * 8, "the mean has one entry per bit");
  for (int i = 0; i < rows; i++) for (int k = 0; k < 8; k++) {
    int sum = 0;
    for (int j = 0; j < cols; j++) sum += (m.data()[j * rows + i] >> k) & 1;
    SYMX_ASSERT(mean.data()[8 * i + k] == (double)sum / cols, "an entry of the mean is the fraction of descriptors with the bit set");
  }
  symx_reach("floatMean");
}
// the deviations, for descriptors that differ in a few bits
void deviations() {
  const int cols = (int)symx_param("cols", 3), rows = 16, nb = (int)symx_param("bits", 2);
  u::DescriptorsType m(rows, cols); m.setZero();
  const int pos[3] = {0, 71, 127};
  std::vector<int> cnt(nb, 0);
  for (int b = 0; b < nb; b++) for (int j = 0; j < cols; j++)
    if (symx_choose("bit", 0, 1)) { m.data()[j * rows + pos[b] / 8] |= (unsigned char)(1 << (pos[b] % 8)); cnt[b]++; }
  const double mad = u::descriptorMeanAbsoluteDeviation(m), sd = u::descriptorMeanStandardDeviation(m);
  double a = 0, q = 0;
  for (int b = 0; b < nb; b++) {
    a += 2 * cnt[b] > cols ? cols - cnt[b] : cnt[b];
    const double p = (double)cnt[b] / cols;
    q += cnt[b] * (1 - p) * (1 - p) + (cols - cnt[b]) * p * p;
  }
  SYMX_ASSERT(std::fabs(mad - (cols < 2 ? 0 : a / cols)) < 1e-12, "the mean absolute deviation averages the distances to the binary mean");
  SYMX_ASSERT(std::fabs(sd - (cols < 2 ? 0 : std::sqrt(q / cols))) < 1e-12, "the standard deviation averages the squared differences to the mean");
  symx_reach("deviations");
}
void squaredNorm() {
  const int rows = (int)symx_param("rows", 1);
  u::DescriptorType d(rows); 
  Eigen::VectorXd mean(rows * 8);
  double want = 0;
  for (int i = 0; i < rows * 8; i++) mean.data()[i] = symx_f64("m");
  for (int i = 0; i < rows; i++) d.data()[i] = (unsigned char)symx_choose("d", 0, 255);
  const double got = u::differenceToMeanSquaredNorm(d, mean);
  for (int i = 0; i < rows * 8; i++) { const double e = (((d.data()[i / 8] >> (i % 8)) & 1) ? 1.0 : 0.0) - mean.data()[i]; want += e * e; }
  symx_real_eq_impl(got, want, "the difference to a mean is summed over all bits", 0);
  symx_reach("squaredNorm");
}
}
#ifndef SYMX
extern "C" int rand() throw() { return (int)(symx_u32("rand") & 0x7fffffffu); }
#endif
extern "C" void symx_main() {
  switch (symx_param("case", 0)) { case 0: hammingStep(); break; case 1: hammingEnds(); break; case 2: hammingCount(); break;
    case 3: bitsRef(); break; case 4: bitsEigen(); break; case 5: bitsRefused(); break; case 6: flipRandom(); break; case 7: ownership(); break; case 8: randomFill(); break;
    case 9: binaryMean(); break; case 10: noMean(); break; case 11: closestToMedian(); break; case 12: floatMean(); break; case 13: deviations(); break; case 14: squaredNorm(); break;
    case 15: unequalSizes(); break; }
}
