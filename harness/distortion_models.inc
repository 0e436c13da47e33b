// Distortion models with arbitrary coefficients.
#include <aslam/cameras/distortion-equidistant.h>
#include <aslam/cameras/distortion-fisheye.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/cameras/distortion-radtan.h>
#include <glog/logging.h>
#include <cmath>
#include <memory>
#include "symx.h"
using namespace aslam;
typedef Eigen::Vector2d V2;
typedef Eigen::Matrix2d M2;
typedef Eigen::Matrix<double, 2, Eigen::Dynamic> M2X;
enum { kNull, kRadTan, kEqui, kFish };
static int model() { return (int)symx_param("model", kRadTan); }
static Distortion* make(int m, const Eigen::VectorXd& c) {
  if (m == kRadTan) return new RadTanDistortion(c);
  if (m == kEqui) return new EquidistantDistortion(c);
  if (m == kFish) return new FisheyeDistortion(c);
  return new NullDistortion();
}
static int numCoeffs(int m) { return m == kNull ? 0 : m == kFish ? 1 : 4; }
// an arbitrary point within the region where the models are used
static V2 point(double lim) {
  V2 p(symx_f64("x"), symx_f64("y"));
  symx_assume((std::abs(p(0)) <= lim) & (std::abs(p(1)) <= lim));
  return p;
}
static double coeff(int m, int i) {
  static const double fixed[4] = {0.25, -0.125, 0.0625, 0.03125};
  // mask: which coefficients are arbitrary (the others have a fixed value)
  if (!((symx_param("free", 15) >> i) & 1)) return symx_param("zero", 0) ? 0 : fixed[i];
  if (m == kFish && symx_choose("none", 0, 1)) return 0;
  double k = symx_f64("k");
  if (m == kFish) symx_assume((k >= 0.5) & (k <= 1.5));
  else symx_assume(std::abs(k) <= 10);
  return k;
}
static Eigen::VectorXd coeffs(int m) {
  Eigen::VectorXd c(numCoeffs(m));
  for (int i = 0; i < c.size(); i++) c(i) = coeff(m, i);
  return c;
}
// a valid set of coefficients that is not the one under test
static Eigen::VectorXd otherCoeffs(int m) {
  Eigen::VectorXd c(numCoeffs(m));
  for (int i = 0; i < c.size(); i++) c(i) = m == kFish ? 0.75 : 0.125 * (i + 1);
  return c;
}
// Between these radii the equidistant model treats a point as if it were at
// the centre for the value but not for the derivative; the two differ by less
// than the rounding error there.
static void notInTheGap(int m, const V2& p) {
  double n = p(0) * p(0) + p(1) * p(1);
  if (m == kEqui) symx_assume((n < 0.9e-20) | (n > 1.1e-16));
}
template <class F>
static double derivative(F f, double at, double symbolic) {
  if (!symx_native()) return symx_diff_value(symbolic, at);
  double h = 1e-5;
  auto d = [&](double s) { return (f(at + s) - f(at - s)) / (2 * s); };
  return (4 * d(h / 2) - d(h)) / 3;
}
// distances at which the models change to another formula: a finite difference
// must not reach across them
static bool nearSwitch(int m, const V2& p, const Eigen::VectorXd& c) {
  if (!symx_native()) return false;
  double r = p.norm();
  if (m == kEqui) return r < 1e-4 && r > 1e-12;
  if (m == kFish) return std::abs(r * r - 1e-5) < 1e-6;
  return false;
}
