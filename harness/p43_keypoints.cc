// Keypoints of the nonlinear scale space: response, extrema, refinement, contrast factor.
#include "symx.h"
#include <cmath>
#include <cstdint>
#include <vector>
#include <sstream>
#include <iostream>
#include <opencv2/opencv.hpp>
#define private public
#include "kaze/KAZE.h"
#undef private
namespace {
float number(const char* n, float lo, float hi) { const float f = (float)symx_f64(n); symx_assume((f >= lo) & (f <= hi)); return f; }
float bits(const char* n) { float f; if (symx_is_real_mode()) return number(n, -10, 10); symx_bytes(&f, 4, n); return f; }
void fill(cv::Mat& m, const char* n, float lo, float hi) { for (int i = 0; i < m.rows; i++) for (int j = 0; j < m.cols; j++) m.at<float>(i, j) = number(n, lo, hi); }
// image filters: what they return is arbitrary, what they are asked for is kept
struct Filter { const void* src; float kx[16], ky[16]; int nx, ny; cv::Mat out; int dx, dy; };
std::vector<Filter> asked;
std::vector<float> solveA, solveB, solveX;
std::vector<float> gradients;
}  // namespace
namespace cv {
void GaussianBlur(InputArray s, OutputArray d, Size, double, double, int) {
  const Mat& a = *static_cast<const Mat*>(s.getObj()); Mat& b = *static_cast<Mat*>(d.getObj()); b.create(a.rows, a.cols, CV_32FC1);
}
void Scharr(InputArray s, OutputArray d, int, int dx, int dy, double, double, int) {
  const Mat& a = *static_cast<const Mat*>(s.getObj()); Mat& b = *static_cast<Mat*>(d.getObj()); b.create(a.rows, a.cols, CV_32FC1);
  b = Scalar(0);
  // gradients (3, 4) t, so that their lengths are 5 t; the first one is the longest
  for (int i = 1; i + 1 < b.rows; i++) for (int j = 1; j + 1 < b.cols; j++) {
    const size_t at = (i - 1) * (b.cols - 2) + j - 1;
    if (at >= gradients.size()) gradients.push_back(at == 0 ? 0.25f : number("t", 0, 0.25f));
    b.at<float>(i, j) = gradients[at] * (dx ? 3.f : -4.f);
  }
  Filter f; f.src = a.data; f.nx = f.ny = 0; f.dx = dx; f.dy = dy; f.out = b.clone(); asked.push_back(f);
}
void getDerivKernels(OutputArray x, OutputArray y, int dx, int dy, int, bool, int) {
  Mat& a = *static_cast<Mat*>(x.getObj()); Mat& b = *static_cast<Mat*>(y.getObj());
  a.create(3, 1, CV_32FC1); b.create(3, 1, CV_32FC1);
  for (int i = 0; i < 3; i++) { a.at<float>(i, 0) = dx ? (float)(i - 1) * 0.5f : 0.25f; b.at<float>(i, 0) = dy ? (float)(i - 1) * 0.5f : 0.25f; }
}
void sepFilter2D(InputArray s, OutputArray d, int, InputArray kx, InputArray ky, Point, double, int) {
  const Mat& a = *static_cast<const Mat*>(s.getObj()); const Mat &x = *static_cast<const Mat*>(kx.getObj()), &y = *static_cast<const Mat*>(ky.getObj());
  Filter f; f.src = a.data; f.nx = x.rows; f.ny = y.rows; f.dx = f.dy = -1;
  for (int i = 0; i < x.rows; i++) f.kx[i] = x.at<float>(i, 0);
  for (int i = 0; i < y.rows; i++) f.ky[i] = y.at<float>(i, 0);
  Mat r(a.rows, a.cols, CV_32FC1); fill(r, "filtered", -1, 1); f.out = r.clone();
  Mat& b = *static_cast<Mat*>(d.getObj()); b.create(a.rows, a.cols, CV_32FC1);
  for (int i = 0; i < r.rows; i++) for (int j = 0; j < r.cols; j++) b.at<float>(i, j) = r.at<float>(i, j);
  asked.push_back(f);
}
bool solve(InputArray A, InputArray b, OutputArray x, int) {
  solveA.assign(static_cast<const float*>(A.getObj()), static_cast<const float*>(A.getObj()) + 9);
  solveB.assign(static_cast<const float*>(b.getObj()), static_cast<const float*>(b.getObj()) + 3);
  solveX.clear();
  for (int i = 0; i < 3; i++) { solveX.push_back(number("shift", -2, 2)); static_cast<float*>(x.getObj())[i] = solveX[i]; }
  return true;
}
int64 getTickCount() { return 0; }
double getTickFrequency() { return 1; }
}  // namespace cv
namespace {
KAZEOptions options(int r, int c, int octaves, int levels) { KAZEOptions o; o.img_width = c; o.img_height = r; o.omax = octaves; o.nsublevels = levels; return o; }
void extrema() {
  const int r = (int)symx_param("r", 3), c = (int)symx_param("c", 3);
  KAZEOptions o = options(r, c, 1, 3);
  o.dthreshold = symx_param("thr", 0) ? (float)symx_param("thr", 0) * 1e-6f : bits("thr");
  libKAZE::KAZE k(o);
  for (int l = 0; l < 3; l++) for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { const float f = bits("det"); symx_assume((f >= -10) & (f <= 10)); k.evolution_[l].Ldet.at<float>(i, j) = f; }
  k.kpts_par_.resize(1);
  k.Find_Extremum_Threading(1);
  const auto& found = k.kpts_par_[0];
  size_t n = 0;
  for (int i = 1; i + 1 < r; i++) for (int j = 1; j + 1 < c; j++) {
    const float v = k.evolution_[1].Ldet.at<float>(i, j);
    bool top = (v > o.dthreshold) & ((double)v >= 0.00001);
    for (int l = 0; l < 3; l++) for (int a = i - 1; a <= i + 1; a++) for (int b = j - 1; b <= j + 1; b++) top = top & (k.evolution_[l].Ldet.at<float>(a, b) <= v);
    bool is = false;
    if (n < found.size()) { const cv::KeyPoint& p = found[n]; is = (p.pt.x == (float)j) & (p.pt.y == (float)i); }
    SYMX_ASSERT(is == top, "a keypoint is found exactly where the response exceeds the threshold and no neighbour in space and scale exceeds it");
    if (!is) continue;
    const cv::KeyPoint& p = found[n++];
    SYMX_ASSERT((p.response == v) & (p.class_id == 1) & (p.size == k.evolution_[1].esigma) & (p.octave == 0) & (p.angle == 1), "a keypoint carries the response and the scale it was found at");
  }
  SYMX_ASSERT(n == found.size(), "no keypoint is found twice");
  symx_reach(n ? "keypoint" : "noKeypoint");
}
// two extrema on a row, near or far
void repeated() {
  const int gap = (int)symx_param("gap", 2), c = gap + 3;
  KAZEOptions o = options(3, c, 1, 3);
  libKAZE::KAZE k(o);
  for (int l = 0; l < 3; l++) k.evolution_[l].Ldet = cv::Scalar(0);
  const float a = bits("a"), b = bits("b");
  symx_assume((a > 0.01f) & (a < 1e10f) & (b > 0.01f) & (b < 1e10f));
  k.evolution_[1].Ldet.at<float>(1, 1) = a; k.evolution_[1].Ldet.at<float>(1, 1 + gap) = b;
  const int s = (int)symx_range("sigma", 1, gap + 3);
  k.evolution_[1].sigma_size = s;
  std::vector<cv::KeyPoint> p;
  k.Determinant_Hessian_Parallel(p);
  if (gap < s) {
    SYMX_ASSERT(p.size() == 1, "of two keypoints closer than their scale one is kept");
    SYMX_ASSERT(b > a ? (p[0].response == b) & (p[0].pt.x == (float)(1 + gap)) : (p[0].response == a) & (p[0].pt.x == 1.0f), "of two close keypoints the stronger one is kept");
    symx_reach("closeKeypoints");
  } else {
    SYMX_ASSERT(p.size() == 2 && (p[0].response == a) & (p[1].response == b), "keypoints that are far enough from each other are all kept");
    symx_reach("farKeypoints");
  }
  std::vector<cv::KeyPoint> q;
  k.Determinant_Hessian_Parallel(q);
  SYMX_ASSERT(q.size() == p.size(), "detecting again finds the same keypoints");
}
void refine() {
  const int octaves = 2, levels = (int)symx_param("levels", 2), lvl = (int)symx_choose("level", 1, octaves * levels - 2);
  KAZEOptions o = options(4, 5, octaves, levels);
  libKAZE::KAZE k(o);
  const int y = (int)symx_choose("y", 1, 2), x = (int)symx_choose("x", 1, 3);
  for (int l = lvl - 1; l <= lvl + 1; l++) for (int i = y - 1; i <= y + 1; i++) for (int j = x - 1; j <= x + 1; j++) k.evolution_[l].Ldet.at<float>(i, j) = number("det", -1, 1);
  std::vector<cv::KeyPoint> p(1);
  p[0].pt.x = (float)x; p[0].pt.y = (float)y; p[0].class_id = lvl; p[0].octave = k.evolution_[lvl].octave; p[0].angle = (float)k.evolution_[lvl].sublevel; p[0].response = number("response", 0.01f, 1); p[0].size = 1;
  const float resp = p[0].response;
  auto L = [&](int dl, int dy, int dx) { return (double)k.evolution_[lvl + dl].Ldet.at<float>(y + dy, x + dx); };
  k.Do_Subpixel_Refinement(p);
  const double T = 1e-3;
  const char* e = "the shift solves the Newton equations of the response around the keypoint";
  symx_real_eq_impl((double)solveB[0], -(L(0, 0, 1) - L(0, 0, -1)) / 2, e, T);
  symx_real_eq_impl((double)solveB[1], -(L(0, 1, 0) - L(0, -1, 0)) / 2, e, T);
  symx_real_eq_impl((double)solveB[2], -(L(1, 0, 0) - L(-1, 0, 0)) / 2, e, T);
  auto A = [&](int i, int j) { return (double)solveA[3 * i + j]; };
  symx_real_eq_impl(A(0, 0), L(0, 0, 1) + L(0, 0, -1) - 2 * L(0, 0, 0), e, T);
  symx_real_eq_impl(A(1, 1), L(0, 1, 0) + L(0, -1, 0) - 2 * L(0, 0, 0), e, T);
  symx_real_eq_impl(A(2, 2), L(1, 0, 0) + L(-1, 0, 0) - 2 * L(0, 0, 0), e, T);
  for (int t = 0; t < 2; t++) {
    symx_real_eq_impl(t ? A(0, 1) : A(1, 0), (L(0, 1, 1) + L(0, -1, -1) - L(0, -1, 1) - L(0, 1, -1)) / 4, e, T);
    symx_real_eq_impl(t ? A(0, 2) : A(2, 0), (L(1, 0, 1) + L(-1, 0, -1) - L(1, 0, -1) - L(-1, 0, 1)) / 4, e, T);
    symx_real_eq_impl(t ? A(1, 2) : A(2, 1), (L(1, 1, 0) + L(-1, -1, 0) - L(1, -1, 0) - L(-1, 1, 0)) / 4, e, T);
  }
  bool in = true;
  for (int i = 0; i < 3; i++) in = in & (solveX[i] <= 1) & (solveX[i] >= -1);
  SYMX_ASSERT((p.size() == 1) == in, "a keypoint is kept exactly if its shift stays within one pixel and one level");
  if (p.empty()) { symx_reach("refinedAway"); return; }
  symx_real_eq_impl((double)p[0].pt.x, x + (double)solveX[0], "a kept keypoint is moved by its shift", T);
  symx_real_eq_impl((double)p[0].pt.y, y + (double)solveX[1], "a kept keypoint is moved by its shift", T);
  SYMX_ASSERT((p[0].response == resp) & (p[0].class_id == lvl), "refining a keypoint keeps its response and level");
  const double dsc = k.evolution_[lvl].octave + (k.evolution_[lvl].sublevel + (double)solveX[2]) / levels;
  symx_real_eq_impl((double)p[0].size, 2 * (double)o.soffset * std::pow(2.0, dsc), "the size of a keypoint is the diameter at its refined scale", T);
  symx_reach("refined");
}
// many keypoints: exactly those within bounds stay, in order
void response() {
  KAZEOptions o = options(2, 2, 1, 2);
  libKAZE::KAZE k(o);
  const int s = (int)symx_choose("scale", 1, 4);
  for (auto& e : k.evolution_) { e.sigma_size = s; fill(e.Lsmooth, "smooth", -1, 1); }
  const void* smooth[2] = {k.evolution_[0].Lsmooth.data, k.evolution_[1].Lsmooth.data};
  asked.clear();
  k.Compute_Detector_Response();
  SYMX_ASSERT(asked.size() == 10, "five derivatives per level");
  for (int l = 0; l < 2; l++) {
    const auto& e = k.evolution_[l];
    // order of the derivatives taken: known by their kernels
    const cv::Mat *xx = nullptr, *yy = nullptr, *xy = nullptr;
    const void *srcx = nullptr;
    for (int q = 5 * l; q < 5 * l + 5; q++) {
      const Filter& f = asked[q];
      const bool dx = f.kx[0] == -f.kx[f.nx - 1], dy = f.ky[0] == -f.ky[f.ny - 1];
      SYMX_ASSERT(dx != dy, "every derivative is taken in one direction");
      if (f.src == smooth[l]) continue;
      if (dx) { xx = &f.out; srcx = f.src; } else if (!yy && srcx && f.src != srcx) yy = &f.out; else xy = &f.out;
    }
    SYMX_ASSERT(xx && yy && xy, "all second derivatives are taken");
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
      const double s4 = (double)s * s * s * s, a = (double)xx->at<float>(i, j), b = (double)yy->at<float>(i, j), m = (double)xy->at<float>(i, j);
      symx_real_eq_impl((double)e.Ldet.at<float>(i, j), s4 * (a * b - m * m), "the response is the scale-normalised determinant of the second derivatives", 1e-3);
    }
  }
  symx_reach("response");
}
// derivative kernels applied to a plane give its slope
void kernels() {
  const int s = (int)symx_choose("scale", 2, symx_param("max", 8)), dir = (int)symx_choose("dir", 0, 1);
  cv::Mat kx, ky;
  compute_derivative_kernels(kx, ky, dir == 0, dir == 1, s);
  SYMX_ASSERT((kx.rows == 2 * s + 1) & (ky.rows == 2 * s + 1) & (kx.cols == 1) & (ky.cols == 1), "the kernel reaches one scale to each side");
  const double a = symx_f64("a"), b = symx_f64("b"), c = symx_f64("c");
  symx_assume((a >= -1) & (a <= 1) & (b >= -1) & (b <= 1) & (c >= -1) & (c <= 1));
  double sum = 0;
  for (int i = 0; i < ky.rows; i++) for (int j = 0; j < kx.rows; j++) {
    const double w = (double)ky.at<float>(i, 0) * (double)kx.at<float>(j, 0);
    if (w != 0) sum += w * (a + b * (j - s) + c * (i - s));
  }
  const double slope = dir == 0 ? b : c;
  SYMX_ASSERT((sum - slope <= 1e-4) & (sum - slope >= -1e-4), "the derivative of a plane is its slope");
  symx_reach("kernels");
}
void contrast() {
  const int r = (int)symx_param("r", 3), c = (int)symx_param("c", 4), bins = (int)symx_param("bins", 3);
  cv::Mat img(r, c, CV_32FC1); img = cv::Scalar(0);
  const float perc = (float)symx_param("perc", 70) / 100.f;
  asked.clear();
  const double k = (double)compute_k_percentile(img, perc, 1.f, bins, 0, 0);
  double hmax = 0; std::vector<double> m;
  for (int i = 1; i + 1 < r; i++) for (int j = 1; j + 1 < c; j++) {
    const double v = 5 * (double)gradients[(i - 1) * (c - 2) + j - 1];
    if (v == 0) continue;
    m.push_back(v); if (v > hmax) hmax = v;
  }
  const int want = (int)((float)m.size() * perc);
  // the smallest multiple of the bin width that covers enough pixels
  int need = 0;
  for (int b = 0; b <= bins; b++) {
    int n = 0;
    for (double v : m) if (symx_concretize((v * bins < hmax * b) | (b == bins))) n++;
    if (n >= want) { need = b; break; }
  }
  SYMX_ASSERT((k * bins >= hmax * (need - 1e-3)) & (k * bins <= hmax * (need + 1e-3)), "the contrast is the smallest step below which the wanted share of gradients lies");
  symx_reach("contrast");
}
}  // namespace
extern "C" void symx_main(void) {
  switch (symx_param("case", 0)) {
    case 0: extrema(); break;
    case 1: repeated(); break;
    case 2: refine(); break;
    case 3: response(); break;
    case 4: kernels(); break;
    case 5: contrast(); break;
  }
}
