// Diffusion of images: conductivities, explicit and implicit steps, contrast factor.
#include "symx.h"
#include <cmath>
#include <cstdint>
#include <vector>
#include <sstream>
#include <iostream>
#include <opencv2/opencv.hpp>
#define private public
#include "kaze/KAZE.h"
#undef private
namespace {
cv::Mat image(int r, int c, const char* n, float lo, float hi) {
  cv::Mat m(r, c, CV_32FC1);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { const float f = (float)symx_f64(n); symx_assume((f >= lo) & (f <= hi)); m.at<float>(i, j) = f; }
  return m;
}
float number(const char* n, float lo, float hi) { const float f = (float)symx_f64(n); symx_assume((f >= lo) & (f <= hi)); return f; }
const double TOL = 1e-3;
void eq(double a, double b, const char* l) { symx_real_eq_impl(a, b, l, TOL); }
// where an image can be diffused to: the four neighbours inside
double flow(const cv::Mat& L, const cv::Mat& c, int i, int j) {
  double f = 0; const int di[] = {1, -1, 0, 0}, dj[] = {0, 0, 1, -1};
  for (int k = 0; k < 4; k++) {
    const int a = i + di[k], b = j + dj[k];
    if (a < 0 || b < 0 || a >= L.rows || b >= L.cols) continue;
    f += ((double)c.at<float>(i, j) + (double)c.at<float>(a, b)) * ((double)L.at<float>(a, b) - (double)L.at<float>(i, j));
  }
  return f;
}
void step() {
  const int r = (int)symx_param("r", 3), c = (int)symx_param("c", 3);
  cv::Mat L = image(r, c, "L", -1, 1), g = image(r, c, "c", 0, 1), old = L.clone(), g0 = g.clone(), S(r, c, CV_32FC1);
  for (int i = 0; i < r * c; i++) S.ptr<float>(i / c)[i % c] = 7;
  const float t = number("t", 0, 1);
  nld_step_scalar(L, g, S, t);
  double before = 0, after = 0;
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
    eq((double)L.at<float>(i, j), (double)old.at<float>(i, j) + 0.5 * (double)t * flow(old, g, i, j), "a step moves every pixel by the flow from its neighbours before the step");
    SYMX_ASSERT(g.at<float>(i, j) == g0.at<float>(i, j), "the conductivity stays");
    before += (double)old.at<float>(i, j); after += (double)L.at<float>(i, j);
  }
  eq(after, before, "diffusion neither creates nor destroys brightness");
  symx_reach("explicitStep");
}
struct Detector : libKAZE::KAZE { Detector(KAZEOptions& o) : KAZE(o) {} };
KAZEOptions options(int r, int c, bool fed) { KAZEOptions o; o.img_width = c; o.img_height = r; o.omax = 1; o.nsublevels = 1; o.use_fed = fed; return o; }
// implicit: every row / column of the result solves the implicit equations
void implicit() {
  const int r = (int)symx_param("r", 3), c = (int)symx_param("c", 2), what = (int)symx_param("what", 0);
  KAZEOptions o = options(r, c, false);
  libKAZE::KAZE k(o);
  const bool conc = symx_param("fixed", 0) != 0;
  cv::Mat L(r, c, CV_32FC1), g(r, c, CV_32FC1), P = image(r, c, "P", -1, 1);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) g.at<float>(i, j) = conc ? 0.25f * (float)((i * 3 + j * 2 + 1) % 5) : number("c", 0, 1);
  const float t = symx_param("t", 0) ? (float)symx_param("t", 0) * 0.5f : number("t", 0, 100);
  cv::Mat P0 = P.clone();
  k.AOS_Step_Scalar(L, P, g, t);
  SYMX_ASSERT((L.rows == r) & (L.cols == c) & (k.Lty_.rows == r) & (k.Lty_.cols == c) & (k.Ltx_.rows == c) & (k.Ltx_.cols == r), "the result has the size of the image");
  double before = 0, after = 0;
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
    double x = (double)k.Lty_.at<float>(i, j), y = (double)k.Ltx_.at<float>(j, i), gc = (double)g.at<float>(i, j);
    if (what == 0) {
      double v = x, h = y;
      for (int d = -1; d <= 1; d += 2) {
        if (i + d >= 0 && i + d < r) v -= (double)t * (gc + (double)g.at<float>(i + d, j)) * ((double)k.Lty_.at<float>(i + d, j) - x);
        if (j + d >= 0 && j + d < c) h -= (double)t * (gc + (double)g.at<float>(i, j + d)) * ((double)k.Ltx_.at<float>(j + d, i) - y);
      }
      eq(v, (double)P.at<float>(i, j), "diffusing along the columns solves the implicit equations");
      eq(h, (double)P.at<float>(i, j), "diffusing along the rows solves the implicit equations");
      eq((double)L.at<float>(i, j), 0.5 * (x + y), "an implicit step is the mean of both directions");
    }
    SYMX_ASSERT(P.at<float>(i, j) == P0.at<float>(i, j), "the previous image stays");
    before += (double)P.at<float>(i, j); after += (double)L.at<float>(i, j);
  }
  if (what == 1) eq(after, before, "diffusion neither creates nor destroys brightness");
  symx_reach("implicitStep");
}
void solver() {  // a tridiagonal system per column
  const int n = (int)symx_param("n", 3), cols = (int)symx_param("cols", 1);
  KAZEOptions o = options(2, 2, false);
  libKAZE::KAZE k(o);
  cv::Mat a = image(n, cols, "a", 3, 10), b = image(n - 1, cols, "b", -1, 1), d = image(n, cols, "d", -1, 1), x(n, cols, CV_32FC1);
  k.Thomas(a, b, d, x);
  for (int j = 0; j < cols; j++) for (int i = 0; i < n; i++) {
    double s = (double)a.at<float>(i, j) * (double)x.at<float>(i, j);
    if (i) s += (double)b.at<float>(i - 1, j) * (double)x.at<float>(i - 1, j);
    if (i + 1 < n) s += (double)b.at<float>(i, j) * (double)x.at<float>(i + 1, j);
    eq(s, (double)d.at<float>(i, j), "the solution solves the system");
  }
  symx_reach("solver");
}
void conductivity() {
  const int model = (int)symx_param("model", 0), r = 2, c = 2;
  const bool zero = symx_param("zero", 0) != 0;
  cv::Mat x = zero ? cv::Mat(r, c, CV_32FC1) : image(r, c, "x", -1, 1), y = zero ? cv::Mat(r, c, CV_32FC1) : image(r, c, "y", -1, 1), d(r, c, CV_32FC1);
  if (zero) { x = cv::Scalar(0); y = cv::Scalar(0); }
  const float k = zero ? 0.5f : number("k", 0.01f, 1);
  switch (model) {
    case 0: pm_g1(x, y, d, k); break;
    case 1: pm_g2(x, y, d, k); break;
    case 2: if (!zero) for (int i = 0; i < 4; i++) symx_assume(x.at<float>(i / 2, i % 2) != 0); weickert_diffusivity(x, y, d, k); break;
    default: charbonnier_diffusivity(x, y, d, k);
  }
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
    const double v = (double)d.at<float>(i, j);
    if (zero) { SYMX_ASSERT(v == 1, "without gradient the conductivity is one"); continue; }
    const double gx = (double)x.at<float>(i, j), gy = (double)y.at<float>(i, j), q = (gx * gx + gy * gy) / ((double)k * (double)k);
    if (model == 0) eq(v, std::exp(-q), "the conductivity is that of the model");
    else if (model == 1) { eq(v, 1 / (1 + q), "the conductivity is that of the model"); SYMX_ASSERT((v > 0) & (v <= 1), "conductivities lie between zero and one"); }
    else if (model == 2) eq(v, 1 - std::exp(-3.315 / (q * q * q * q)), "the conductivity is that of the model");
    else { symx_real_eq_impl(v * v * (1 + q), 1, "the conductivity is that of the model", TOL); SYMX_ASSERT((v > 0) & (v <= 1), "conductivities lie between zero and one"); }
  }
  symx_reach(zero ? "noGradient" : "conductivity");
}
}  // namespace
extern "C" void symx_main(void) {
  switch (symx_param("case", 0)) {
    case 0: step(); break;
    case 1: implicit(); break;
    case 2: solver(); break;
    case 3: conductivity(); break;
  }
}
