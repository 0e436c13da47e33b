// Solver-side model of cv::Mat's memory handling (the library's own lives in a
// shared object): reference-counted row-major images, the operations the code
// under test uses.
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include <opencv2/core.hpp>
extern "C" [[noreturn]] void symx_unsupported(const char*);
namespace cv {
namespace {
int& refs(const Mat& m) { return *reinterpret_cast<int*>(m.u); }
void init(Mat* m) {
  m->flags = Mat::MAGIC_VAL; m->dims = m->rows = m->cols = 0; m->data = nullptr; m->datastart = m->dataend = m->datalimit = nullptr; m->allocator = nullptr; m->u = nullptr;
}
void shape(Mat* m, int rows, int cols, int type, size_t step) {
  m->dims = 2; m->rows = rows; m->cols = cols;
  m->flags = (type & Mat::TYPE_MASK) | Mat::MAGIC_VAL;
  const size_t esz = CV_ELEM_SIZE(type), min = esz * cols;
  if (step == 0 || rows == 1) step = min;
  m->step.buf[0] = step; m->step.buf[1] = esz;
  if (step == min) m->flags |= Mat::CONTINUOUS_FLAG;
}
void share(Mat* m, const Mat& o) {
  m->flags = o.flags; m->dims = o.dims; m->rows = o.rows; m->cols = o.cols; m->data = o.data;
  m->datastart = o.datastart; m->dataend = o.dataend; m->datalimit = o.datalimit; m->allocator = nullptr; m->u = o.u;
  m->step.buf[0] = o.step.buf[0]; m->step.buf[1] = o.step.buf[1];
  if (o.dims > 2) symx_unsupported("images with more than two dimensions");
  if (o.u) refs(o)++;
}
}
Exception::Exception() : code(0), line(0) {}
Exception::Exception(int c, const String&, const String&, const String&, int l) : code(c), line(l) {}
Exception::~Exception() throw() {}
const char* Exception::what() const throw() { return "cv::Exception"; }
void Exception::formatMessage() {}
void error(int code, const String& e, const char* f, const char* file, int line) { throw Exception(code, e, String(), String(), line); }
void error(const Exception& e) { throw e; }
Mat::Mat() CV_NOEXCEPT : step(), size(&rows) { init(this); }
Mat::Mat(int r, int c, int t) : size(&rows) { init(this); create(r, c, t); }
Mat::Mat(Size s, int t) : size(&rows) { init(this); create(s.height, s.width, t); }
Mat::Mat(const Mat& o) : size(&rows) { share(this, o); }
Mat::Mat(int r, int c, int t, void* p, size_t st) : size(&rows) {
  init(this); shape(this, r, c, t, st); data = static_cast<uchar*>(p); datastart = data; datalimit = data + step.buf[0] * r; dataend = datalimit;
}
Mat& Mat::operator=(Mat&& o) { if (this != &o) { Mat keep(o); o.release(); o.rows = o.cols = 0; release(); share(this, keep); } return *this; }
Mat::Mat(Mat&& o) : size(&rows) { share(this, o); o.release(); o.rows = o.cols = 0; }
Mat::~Mat() { release(); if (step.p != step.buf) fastFree(step.p); }
Mat& Mat::operator=(const Mat& o) { if (this != &o) { Mat keep(o); release(); share(this, keep); } return *this; }
void Mat::release() {
  if (u && --refs(*this) == 0) { ::free(datastart ? const_cast<uchar*>(datastart) : nullptr); ::free(u); }
  u = nullptr; datastart = dataend = datalimit = data = nullptr;
  for (int i = 0; i < dims; i++) size.p[i] = 0;
}
void Mat::create(int r, int c, int t) {
  t &= TYPE_MASK;
  if (dims == 2 && rows == r && cols == c && type() == t && data) return;
  release();
  if (r < 0 || c < 0) throw Exception();
  const unsigned __int128 n = (unsigned __int128)((uint64_t)r * (uint64_t)c) * (uint64_t)CV_ELEM_SIZE(t);
  if (n > ((uint64_t)1 << 40)) throw Exception();  // cannot be allocated
  shape(this, r, c, t, 0);
  if (r && c) {
    u = static_cast<UMatData*>(::malloc(16)); refs(*this) = 1;
    data = static_cast<uchar*>(::malloc((size_t)n)); datastart = data; dataend = datalimit = data + (size_t)n;
  }
}
void Mat::create(Size s, int t) { create(s.height, s.width, t); }
bool Mat::empty() const { return data == 0 || total() == 0 || dims == 0; }
size_t Mat::total() const { return dims <= 2 ? (size_t)rows * cols : 0; }
void Mat::copySize(const Mat& m) { shape(this, m.rows, m.cols, m.type(), m.step.buf[0]); }
Mat Mat::clone() const {
  Mat m; if (dims == 0) return m;
  m.create(rows, cols, type());
  for (int i = 0; i < rows; i++) memcpy(m.data + m.step.buf[0] * i, data + step.buf[0] * i, step.buf[1] * cols);
  return m;
}
void Mat::copyTo(const _OutputArray& o) const {
  if (o.kind() != _InputArray::MAT) symx_unsupported("copying to this container");
  Mat& m = *static_cast<Mat*>(o.getObj());
  m.create(rows, cols, type());
  for (int i = 0; i < rows; i++) memmove(m.data + m.step.buf[0] * i, data + step.buf[0] * i, step.buf[1] * cols);
}
void _OutputArray::create(int r, int c, int t, int, bool, DepthMask) const {
  if (kind() != MAT) symx_unsupported("creating this container");
  static_cast<Mat*>(obj)->create(r, c, t);
}
Mat _InputArray::getMat_(int) const {
  if (kind() != MAT) symx_unsupported("this container as a matrix");
  return *static_cast<const Mat*>(obj);
}
_InputArray::KindFlag _InputArray::kind() const { return (KindFlag)(flags & KIND_MASK); }
// matrix expressions, evaluated at once (one channel of float or double)
namespace {
template <class F> Mat each(const Mat& m, F f) {
  Mat r(m.rows, m.cols, m.type());
  for (int i = 0; i < m.rows; i++) for (int j = 0; j < m.cols; j++) {
    if (m.type() == CV_32FC1) r.at<float>(i, j) = (float)f((double)m.at<float>(i, j), i, j);
    else if (m.type() == CV_64FC1) r.at<double>(i, j) = f(m.at<double>(i, j), i, j);
    else symx_unsupported("matrix arithmetic of this type");
  }
  return r;
}
double elem(const Mat& m, int i, int j) { return m.type() == CV_32FC1 ? (double)m.at<float>(i, j) : m.at<double>(i, j); }
void sameSize(const Mat& a, const Mat& b) { if (a.rows != b.rows || a.cols != b.cols || a.type() != b.type()) throw Exception(); }
struct Now : MatOp {
  void assign(const MatExpr& e, Mat& m, int t) const override {
    if (t != -1 && t != e.a.type()) symx_unsupported("converting matrix assignment");
    if (m.data && m.rows == e.a.rows && m.cols == e.a.cols && m.type() == e.a.type())
      for (int i = 0; i < m.rows; i++) memmove(m.data + m.step.buf[0] * i, e.a.data + e.a.step.buf[0] * i, m.step.buf[1] * m.cols);
    else m = e.a;
  }
};
const Now now;
MatExpr done(const Mat& m) { return MatExpr(&now, 0, m, Mat(), Mat(), 1, 1); }
const Mat& val(const MatExpr& e) { return e.a; }
double sc(const Scalar& s) { return s.val[0]; }
}
MatOp::MatOp() {}
MatOp::~MatOp() {}
bool MatOp::elementWise(const MatExpr&) const { return true; }
#define NO { symx_unsupported("matrix expression"); }
void MatOp::roi(const MatExpr&, const Range&, const Range&, MatExpr&) const NO
void MatOp::diag(const MatExpr&, int, MatExpr&) const NO
void MatOp::augAssignAdd(const MatExpr&, Mat&) const NO
void MatOp::augAssignSubtract(const MatExpr&, Mat&) const NO
void MatOp::augAssignMultiply(const MatExpr&, Mat&) const NO
void MatOp::augAssignDivide(const MatExpr&, Mat&) const NO
void MatOp::augAssignAnd(const MatExpr&, Mat&) const NO
void MatOp::augAssignOr(const MatExpr&, Mat&) const NO
void MatOp::augAssignXor(const MatExpr&, Mat&) const NO
void MatOp::add(const MatExpr&, const MatExpr&, MatExpr&) const NO
void MatOp::add(const MatExpr&, const Scalar&, MatExpr&) const NO
void MatOp::subtract(const MatExpr&, const MatExpr&, MatExpr&) const NO
void MatOp::subtract(const Scalar&, const MatExpr&, MatExpr&) const NO
void MatOp::multiply(const MatExpr&, const MatExpr&, MatExpr&, double) const NO
void MatOp::multiply(const MatExpr&, double, MatExpr&) const NO
void MatOp::divide(const MatExpr&, const MatExpr&, MatExpr&, double) const NO
void MatOp::divide(double, const MatExpr&, MatExpr&) const NO
void MatOp::abs(const MatExpr&, MatExpr&) const NO
void MatOp::transpose(const MatExpr&, MatExpr&) const NO
void MatOp::matmul(const MatExpr&, const MatExpr&, MatExpr&) const NO
void MatOp::invert(const MatExpr&, int, MatExpr&) const NO
Size MatOp::size(const MatExpr& e) const { return Size(e.a.cols, e.a.rows); }
int MatOp::type(const MatExpr& e) const { return e.a.type(); }
#undef NO
MatExpr::MatExpr(const Mat& m) : op(&now), flags(0), a(m), alpha(1), beta(0) {}
MatExpr MatExpr::t() const { return a.t(); }
MatExpr Mat::t() const {
  Mat r(cols, rows, type());
  for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) memcpy(r.data + r.step.buf[0] * j + r.step.buf[1] * i, data + step.buf[0] * i + step.buf[1] * j, step.buf[1]);
  return done(r);
}
MatExpr Mat::zeros(int r, int c, int t) { Mat m(r, c, t); if (m.data) memset(m.data, 0, m.step.buf[0] * r); return done(m); }
MatExpr Mat::zeros(Size s, int t) { return zeros(s.height, s.width, t); }
Mat& Mat::operator=(const Scalar& s) {
  if (type() == CV_32FC1 || type() == CV_64FC1) {
    for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) if (type() == CV_32FC1) at<float>(i, j) = (float)sc(s); else at<double>(i, j) = sc(s);
  } else {
    if (s.val[0] != 0 || s.val[1] != 0 || s.val[2] != 0 || s.val[3] != 0) symx_unsupported("filling a matrix of this type");
    for (int i = 0; i < rows; i++) memset(data + step.buf[0] * i, 0, step.buf[1] * cols);
  }
  return *this;
}
MatExpr operator+(const Mat& a, const Mat& b) { sameSize(a, b); return done(each(a, [&](double x, int i, int j) { return x + elem(b, i, j); })); }
MatExpr operator-(const Mat& a, const Mat& b) { sameSize(a, b); return done(each(a, [&](double x, int i, int j) { return x - elem(b, i, j); })); }
MatExpr operator+(const Mat& a, const Scalar& s) { return done(each(a, [&](double x, int, int) { return x + sc(s); })); }
MatExpr operator+(const Scalar& s, const Mat& a) { return a + s; }
MatExpr operator-(const Mat& a, const Scalar& s) { return done(each(a, [&](double x, int, int) { return x - sc(s); })); }
MatExpr operator-(const Scalar& s, const Mat& a) { return done(each(a, [&](double x, int, int) { return sc(s) - x; })); }
MatExpr operator-(const Mat& a) { return done(each(a, [&](double x, int, int) { return -x; })); }
MatExpr operator*(const Mat& a, double s) { return done(each(a, [&](double x, int, int) { return x * s; })); }
MatExpr operator*(double s, const Mat& a) { return a * s; }
MatExpr operator/(const Mat& a, double s) { return done(each(a, [&](double x, int, int) { return x / s; })); }
MatExpr operator+(const MatExpr& e, const Mat& m) { return val(e) + m; }
MatExpr operator+(const Mat& m, const MatExpr& e) { return m + val(e); }
MatExpr operator+(const MatExpr& e, const Scalar& s) { return val(e) + s; }
MatExpr operator+(const Scalar& s, const MatExpr& e) { return val(e) + s; }
MatExpr operator+(const MatExpr& e, const MatExpr& f) { return val(e) + val(f); }
MatExpr operator-(const MatExpr& e, const Mat& m) { return val(e) - m; }
MatExpr operator-(const Mat& m, const MatExpr& e) { return m - val(e); }
MatExpr operator-(const MatExpr& e, const Scalar& s) { return val(e) - s; }
MatExpr operator-(const Scalar& s, const MatExpr& e) { return s - val(e); }
MatExpr operator-(const MatExpr& e, const MatExpr& f) { return val(e) - val(f); }
MatExpr operator-(const MatExpr& e) { return -val(e); }
MatExpr operator*(const MatExpr& e, double s) { return val(e) * s; }
MatExpr operator*(double s, const MatExpr& e) { return val(e) * s; }
MatExpr operator/(const MatExpr& e, double s) { return val(e) / s; }
void exp(InputArray s, OutputArray d) {
  if (s.kind() != _InputArray::MAT || d.kind() != _InputArray::MAT) symx_unsupported("exp of this container");
  Mat& t = *static_cast<Mat*>(d.getObj()); MatExpr e = done(each(*static_cast<const Mat*>(s.getObj()), [&](double x, int, int) { return std::exp(x); }));
  now.assign(e, t, -1);
}
void* fastMalloc(size_t n) { return ::malloc(n); }
void fastFree(void* p) { ::free(p); }
}
