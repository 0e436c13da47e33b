// Channels: serialisation, refusal of malformed data, channel groups.
#include "symx.h"
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <Eigen/Core>
#include <glog/logging.h>
#include <opencv2/core/core.hpp>
#include <aslam/common/channel-definitions.h>
namespace ch = aslam::channels;
namespace in = aslam::internal;
namespace {
typedef Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic> Bytes;
typedef Eigen::Matrix<float, Eigen::Dynamic, 3> Nx3f;
typedef Eigen::Matrix<unsigned short, 2, 3> Fixed;
bool sameBytes(const void* a, const void* b, size_t n) {
  bool same = true;
  for (size_t i = 0; i < n; i++) same = same & (static_cast<const char*>(a)[i] == static_cast<const char*>(b)[i]);
  return same;
}
template <class M> void fill(M* m) { if (m->size()) symx_bytes(m->data(), m->size() * sizeof(typename M::Scalar), "x"); }
template <class M> void shapeOf(int* r, int* c) {
  *r = M::RowsAtCompileTime == Eigen::Dynamic ? (int)symx_choose("rows", 0, symx_param("max", 3)) : (int)M::RowsAtCompileTime;
  *c = M::ColsAtCompileTime == Eigen::Dynamic ? (int)symx_choose("cols", 0, symx_param("max", 3)) : (int)M::ColsAtCompileTime;
}
template <class C> std::string viaString(const C& a) { std::string s; SYMX_ASSERT(a.serializeToString(&s), "writing a channel succeeds"); return s; }
// writes with one form, reads with the other or the same
template <class C> void transfer(const C& a, C* b) {
  const int how = (int)symx_choose("form", 0, 2);
  std::string s;
  if (how != 1) {
    s = viaString(a);
    SYMX_ASSERT(how == 0 ? b->deSerializeFromString(s) : b->deSerializeFromBuffer(s.data(), s.size()), "reading back what was written succeeds");
  } else {
    char* buf = nullptr; size_t n = 0;
    SYMX_ASSERT(a.serializeToBuffer(&buf, &n), "writing a channel succeeds");
    SYMX_ASSERT(b->deSerializeFromBuffer(buf, n), "reading back what was written succeeds");
    delete[] buf;
  }
}
template <class M> void matrixTrip() {
  const uint64_t live = symx_heap_bytes();
  {
    ch::Channel<M> a, b;
    int r, c; shapeOf<M>(&r, &c);
    a.value_.resize(r, c); fill(&a.value_);
    if (M::RowsAtCompileTime == Eigen::Dynamic && symx_choose("reused", 0, 1)) { b.value_.resize(M::RowsAtCompileTime == Eigen::Dynamic ? 2 : r, M::ColsAtCompileTime == Eigen::Dynamic ? 1 : c); fill(&b.value_); }
    const M before = a.value_;
    transfer(a, &b);
    SYMX_ASSERT((b.value_.rows() == r) & (b.value_.cols() == c), "a matrix keeps its size when it is written and read back");
    SYMX_ASSERT(sameBytes(b.value_.data(), a.value_.data(), sizeof(typename M::Scalar) * r * c), "a matrix keeps its content when it is written and read back");
    SYMX_ASSERT(sameBytes(before.data(), a.value_.data(), sizeof(typename M::Scalar) * r * c), "writing does not change the channel");
  }
  SYMX_ASSERT(symx_heap_bytes() == live, "nothing is left allocated");
  symx_reach("matrixTrip");
}
template <class M> void matricesTrip() {
  ch::Channel<std::vector<M>> a, b;
  const int n = (int)symx_choose("count", 0, symx_param("count", 3));
  for (int i = 0; i < n; i++) { int r, c; shapeOf<M>(&r, &c); a.value_.emplace_back(); a.value_.back().resize(r, c); fill(&a.value_.back()); }
  if (symx_choose("reused", 0, 1)) { b.value_.resize(2); b.value_[1].resize(M::RowsAtCompileTime == Eigen::Dynamic ? 2 : (int)M::RowsAtCompileTime, 1); fill(&b.value_[1]); }
  transfer(a, &b);
  SYMX_ASSERT((int)b.value_.size() == n, "a list of matrices keeps its length");
  for (int i = 0; i < n; i++) {
    const M &x = a.value_[i], &y = b.value_[i];
    SYMX_ASSERT((x.rows() == y.rows()) & (x.cols() == y.cols()), "a matrix keeps its size when it is written and read back");
    SYMX_ASSERT(sameBytes(x.data(), y.data(), sizeof(typename M::Scalar) * x.size()), "a matrix keeps its content when it is written and read back");
  }
  symx_reach("matricesTrip");
}
template <class T> void integerTrip() {
  ch::Channel<T> a, b;
  const int64_t w = symx_param("window", 0);
  a.value_ = static_cast<T>(w ? (uint64_t)symx_param("around", 0) + (uint64_t)symx_range("v", -w, w) : symx_u64("v"));
  const int how = (int)symx_param("form", 0);
  if (how == 0) {
    std::string s = viaString(a);
    SYMX_ASSERT(b.deSerializeFromString(s), "reading back what was written succeeds");
  } else {
    char* buf = nullptr; size_t n = 0;
    a.serializeToBuffer(&buf, &n); b.deSerializeFromBuffer(buf, n); delete[] buf;
  }
  SYMX_ASSERT(a.value_ == b.value_, "an integer keeps its value when it is written and read back");
  symx_reach("integerTrip");
}
void doubleTrip() {
  ch::Channel<double> a, b; ch::Channel<float> c, d;
  symx_bytes(&a.value_, 8, "v"); symx_bytes(&c.value_, 4, "v");
  char* buf = nullptr; size_t n = 0;
  a.serializeToBuffer(&buf, &n); b.deSerializeFromBuffer(buf, n); delete[] buf;
  c.serializeToBuffer(&buf, &n); d.deSerializeFromBuffer(buf, n); delete[] buf;
  SYMX_ASSERT(sameBytes(&a.value_, &b.value_, 8) & sameBytes(&c.value_, &d.value_, 4), "a number keeps its bits in a binary buffer");
  symx_reach("doubleTrip");
}
void imageTrip() {
  static const int depths[7] = {CV_8U, CV_8S, CV_16U, CV_16S, CV_32S, CV_32F, CV_64F};
  const int r = (int)symx_choose("rows", 0, symx_param("max", 2)), c = (int)symx_choose("cols", 0, symx_param("max", 2)), k = (int)symx_choose("channels", 1, 3), t = CV_MAKETYPE(depths[symx_choose("depth", 0, 6)], k);
  ch::Channel<cv::Mat> a, b;
  a.value_.create(r, c, t);
  const size_t n = a.value_.elemSize() * r * c;
  if (n) symx_bytes(a.value_.data, n, "x");
  if (symx_choose("reused", 0, 1)) b.value_.create(1, 2, CV_8UC1);
  transfer(a, &b);
  SYMX_ASSERT((b.value_.rows == r) & (b.value_.cols == c) & (n == 0 || b.value_.type() == t), "an image keeps its size and type when it is written and read back");
  if (n) SYMX_ASSERT(sameBytes(a.value_.data, b.value_.data, n), "an image keeps its content when it is written and read back");
  symx_reach("imageTrip");
}
// different matrices have different serialised forms
template <class M> void distinct() {
  ch::Channel<M> a, b; int r, c;
  shapeOf<M>(&r, &c); a.value_.resize(r, c); fill(&a.value_);
  int r2, c2; shapeOf<M>(&r2, &c2); b.value_.resize(r2, c2); fill(&b.value_);
  const std::string s = viaString(a), t = viaString(b);
  const bool same = (r == r2 && c == c2) ? sameBytes(a.value_.data(), b.value_.data(), sizeof(typename M::Scalar) * r * c) : false;
  const bool sameText = s.size() == t.size() ? sameBytes(s.data(), t.data(), s.size()) : false;
  SYMX_ASSERT(same == sameText, "different contents are written differently");
  symx_reach("distinct");
}
// ---------------------------------------------------------------- malformed data
uint32_t extent(const char* what) {
  static const uint32_t odd[] = {0x7fffffffu, 0x80000000u, 0xffffffffu, 0x10000u, 0x40000000u, 0x20000000u, 513u};
  const int k = (int)symx_choose(what, 0, symx_param("odd", 6) + 4);
  return k < 4 ? (uint32_t)k : odd[k - 4];
}
void put32(char* p, uint32_t v) { memcpy(p, &v, 4); }
// Reads a buffer of exactly n bytes; whatever it holds, the reader must stay
// inside, and if it accepts it must have got all of it.
template <class M> void badMatrix() {
  const int n = (int)symx_choose("size", 0, symx_param("size", 24));
  std::unique_ptr<char[]> buf(new char[n]);
  symx_bytes(buf.get(), n, "x");
  uint32_t r = 0, c = 0, depth = 0, k = 0;
  if (n >= 16) {
    r = extent("rows"); c = extent("cols"); k = symx_u32("channels"); depth = symx_u32("depth");
    put32(buf.get(), r); put32(buf.get() + 4, c); put32(buf.get() + 8, depth); put32(buf.get() + 12, k);
  }
  M m;
  const int res = symx_try([&] { in::deSerializeFromBuffer(buf.get(), (size_t)n, &m); });
  if (res == 0) {
    SYMX_ASSERT(n >= 16, "data without a whole header is refused");
    SYMX_ASSERT((m.rows() == (int64_t)r) & (m.cols() == (int64_t)c) & (k == 1) & (depth == (uint32_t)cv::DataType<typename M::Scalar>::depth), "data of another type or size is refused");
    SYMX_ASSERT(sizeof(typename M::Scalar) * (size_t)m.size() + 16 == (size_t)n, "data of the wrong length is refused");
    SYMX_ASSERT(sameBytes(m.data(), buf.get() + 16, n - 16), "accepted data is read completely");
    symx_reach("badMatrixAccepted");
  } else {
    const bool good = n >= 16 && ((r <= 3) & (c <= 3) & (k == 1) & (depth == (uint32_t)cv::DataType<typename M::Scalar>::depth) &
        (16 + sizeof(typename M::Scalar) * r * c == (size_t)n) & (M::RowsAtCompileTime == Eigen::Dynamic || (int)r == M::RowsAtCompileTime) & (M::ColsAtCompileTime == Eigen::Dynamic || (int)c == M::ColsAtCompileTime));
    SYMX_ASSERT(!good, "well-formed data is accepted");
  }
  symx_reach("badMatrix");
}
template <class M> void badMatrices() {
  const int n = (int)symx_choose("size", symx_param("from", 0), symx_param("size", 60));
  std::unique_ptr<char[]> buf(new char[n]);
  symx_bytes(buf.get(), n, "x");
  const int heads = (int)symx_param("headers", 2);
  const int64_t cnt = symx_choose("count", 0, heads + 2);  // as many as there are chosen headers, or very many
  const uint64_t count = cnt <= heads ? cnt : cnt == heads + 1 ? (1ull << 60) : ~0ull;
  if (n >= 8) memcpy(buf.get(), &count, 8);
  size_t at = 8;
  std::vector<uint32_t> hr, hc;
  for (int i = 0; i < heads && at + 8 <= (size_t)n; i++) {
    const uint32_t r = extent("rows"), c = extent("cols");
    put32(buf.get() + at, r); put32(buf.get() + at + 4, c);
    hr.push_back(r); hc.push_back(c);
    at += 16 + (r < 4 && c < 4 ? (size_t)r * c * sizeof(typename M::Scalar) : 0);
  }
  std::vector<M> m;
  const int res = symx_try([&] { in::deSerializeFromBuffer(buf.get(), (size_t)n, &m); });
  if (res == 0) {
    size_t used = 8;
    for (const M& x : m) used += 16 + x.size() * sizeof(typename M::Scalar);
    SYMX_ASSERT(m.size() == count, "a list has as many matrices as announced");
    SYMX_ASSERT(used == (size_t)n, "data of the wrong length is refused");
    for (size_t i = 0; i < m.size() && i < hr.size(); i++) SYMX_ASSERT((m[i].rows() == (int64_t)hr[i]) & (m[i].cols() == (int64_t)hc[i]), "data of another type or size is refused");
    size_t o = 8;
    for (const M& x : m) { SYMX_ASSERT(sameBytes(x.data(), buf.get() + o + 16, x.size() * sizeof(typename M::Scalar)), "accepted data is read completely"); o += 16 + x.size() * sizeof(typename M::Scalar); }
    symx_reach("badMatricesAccepted");
  } else if (n >= 8 && count <= hr.size()) {
    bool good = true;
    size_t o = 8;
    for (size_t i = 0; i < count && good; i++) {
      good = o + 16 <= (size_t)n && hr[i] < 4 && hc[i] < 4 && (M::RowsAtCompileTime == Eigen::Dynamic || (int)hr[i] == M::RowsAtCompileTime) && (M::ColsAtCompileTime == Eigen::Dynamic || (int)hc[i] == M::ColsAtCompileTime);
      if (!good) break;
      uint32_t depth, k; memcpy(&depth, buf.get() + o + 8, 4); memcpy(&k, buf.get() + o + 12, 4);
      good = (depth == (uint32_t)cv::DataType<typename M::Scalar>::depth) & (k == 1);
      o += 16 + sizeof(typename M::Scalar) * hr[i] * hc[i];
    }
    SYMX_ASSERT(!(good && o == (size_t)n), "well-formed data is accepted");
  }
  symx_reach("badMatrices");
}
void badImage() {
  const int wide = (int)symx_param("wide", 0);
  const int n = wide ? 16 + 513 : (int)symx_choose("size", 0, symx_param("size", 24));
  std::unique_ptr<char[]> buf(new char[n]);
  symx_bytes(buf.get(), n, "x");
  uint32_t r = 0, c = 0, depth = 0, k = 0;
  if (n >= 16) {
    r = extent("rows"); c = extent("cols"); k = (uint32_t)symx_choose("channels", 0, 6);
    k = k < 5 ? k : k == 5 ? 513u : 0x80000010u;
    depth = symx_u32("depth");
    put32(buf.get(), r); put32(buf.get() + 4, c); put32(buf.get() + 8, depth); put32(buf.get() + 12, k);
  }
  cv::Mat m;
  const int res = symx_try([&] { in::deSerializeFromBuffer(buf.get(), (size_t)n, &m); });
  if (res == 0) {
    SYMX_ASSERT(n >= 16, "data without a whole header is refused");
    SYMX_ASSERT((m.rows == (int64_t)r) & (m.cols == (int64_t)c), "data of another type or size is refused");
    if (r && c) {
      SYMX_ASSERT(((uint32_t)m.depth() == depth) & ((uint32_t)m.channels() == k), "data of another type or size is refused");
      SYMX_ASSERT(m.elemSize() * r * c + 16 == (size_t)n, "data of the wrong length is refused");
      SYMX_ASSERT(sameBytes(m.data, buf.get() + 16, n - 16), "accepted data is read completely");
    }
    symx_reach("badImageAccepted");
  }
  symx_reach("badImage");
}
void badScalar() {
  const int n = (int)symx_choose("size", 0, 9);
  std::unique_ptr<char[]> buf(new char[n]);
  symx_bytes(buf.get(), n, "x");
  int v = 0; double d = 0;
  const bool isInt = symx_choose("type", 0, 1);
  const int res = isInt ? symx_try([&] { in::deSerializeFromBuffer(buf.get(), (size_t)n, &v); }) : symx_try([&] { in::deSerializeFromBuffer(buf.get(), (size_t)n, &d); });
  SYMX_ASSERT((res == 0) == (n == (isInt ? 4 : 8)), "data of the wrong length is refused");
  std::string none;
  SYMX_ASSERT(symx_try([&] { in::deSerializeFromString(none, &v); }) != 0, "empty text is refused");
  symx_reach("badScalar");
}
}
#include "p17_groups.inc"
extern "C" void symx_main() {
  switch (symx_param("case", 0)) {
    case 0: matrixTrip<Bytes>(); break; case 1: matrixTrip<Eigen::Matrix2Xd>(); break; case 2: matrixTrip<Eigen::VectorXi>(); break; case 3: matrixTrip<Nx3f>(); break; case 4: matrixTrip<Fixed>(); break;
    case 5: matricesTrip<Bytes>(); break; case 6: matricesTrip<Eigen::Matrix2Xf>(); break;
    case 7: integerTrip<int>(); break; case 8: integerTrip<long>(); break; case 9: integerTrip<size_t>(); break; case 10: integerTrip<unsigned short>(); break; case 11: doubleTrip(); break; case 12: imageTrip(); break;
    case 13: distinct<Bytes>(); break; case 14: distinct<Eigen::VectorXd>(); break;
    case 20: badMatrix<Bytes>(); break; case 21: badMatrix<Eigen::Matrix2Xd>(); break; case 22: badMatrix<Nx3f>(); break; case 23: badMatrix<Fixed>(); break;
    case 24: badMatrices<Bytes>(); break; case 25: badMatrices<Eigen::Matrix2Xf>(); break; case 26: badImage(); break; case 27: badScalar(); break;
    case 28: badMatrices<Eigen::Matrix<uint8_t, 2, 2>>(); break; case 29: badMatrices<Eigen::Matrix<uint8_t, Eigen::Dynamic, 2>>(); break;
    case 30: groupOps(); break; case 31: groupClone(); break; case 32: groupEqual(); break; case 33: groupThreads(); break; case 34: groupTypes(); break;
  }
}
