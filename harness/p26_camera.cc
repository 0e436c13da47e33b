// Cameras: projection, visibility and back-projection (P26), derivatives (P27).
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include "distortion_models.inc"
typedef Eigen::Vector3d V3;
typedef Eigen::Vector4d V4;
typedef Eigen::Matrix<double, 2, 3> M23;
typedef ProjectionResult::Status St;
static const uint32_t W = 40, H = 30;
static bool unified() { return symx_param("unified", 0) != 0; }
static double bounded(const char* n, double lo, double hi) {
  double v = symx_f64(n);
  symx_assume((v >= lo) & (v <= hi));
  return v;
}
// xi, fu, fv, cu, cv (the pinhole camera has no xi)
static Eigen::VectorXd intrinsics() {
  Eigen::VectorXd v(unified() ? 5 : 4);
  int n = 0;
  if (symx_param("fixed", 0)) {
    if (unified()) v << 0.75, 32, 24, 20, 15;
    else v << 32, 24, 20, 15;
    return v;
  }
  if (unified()) v(n++) = symx_param("xi8", -1) >= 0 ? symx_param("xi8", -1) / 8.0 : bounded("xi", 0, symx_param("wide", 0) ? 4 : 1);
  if (unified() && symx_param("wide", 0)) symx_assume(v(0) > 1);
  v(n++) = bounded("fu", 0.125, 1000);
  v(n++) = bounded("fv", 0.125, 1000);
  v(n++) = bounded("cu", 0.125, 1000);
  v(n++) = bounded("cv", 0.125, 1000);
  return v;
}
static Eigen::VectorXd otherIntrinsics() {
  Eigen::VectorXd v(unified() ? 5 : 4);
  for (int i = 0; i < v.size(); i++) v(i) = 0.5 * (i + 1);
  return v;
}
static std::unique_ptr<Camera> camera(const Eigen::VectorXd& in, int m, const Eigen::VectorXd& c) {
  Distortion::UniquePtr d(make(m, c));
  if (unified()) return std::unique_ptr<Camera>(new UnifiedProjectionCamera(in, W, H, d));
  return std::unique_ptr<Camera>(new PinholeCamera(in, W, H, d));
}
static V3 point3(bool behind = true) {
  V3 p(bounded("X", -8, 8), bounded("Y", -8, 8), bounded("Z", -8, 8));
  if (!unified()) {
    symx_assume(p(2) != 0);
    if (symx_choose("front", behind ? 0 : 1, 1)) symx_assume(p(2) > 0);
    else symx_assume(p(2) < 0);
  } else {
    symx_assume((p.squaredNorm() >= 1e-6) & (p.squaredNorm() > 1e-10 * 1e-10));
  }
  return p;
}
// the point on the plane of the lens
static V2 plane(const Eigen::VectorXd& in, const V3& p) {
  if (!unified()) return V2(p(0) / p(2), p(1) / p(2));
  double d = std::sqrt(p(0) * p(0) + p(1) * p(1) + p(2) * p(2));
  return V2(p(0) / (p(2) + in(0) * d), p(1) / (p(2) + in(0) * d));
}
static bool projectable(const Eigen::VectorXd& in, const V3& p) {
  if (!unified()) return true;
  double d = std::sqrt(p(0) * p(0) + p(1) * p(1) + p(2) * p(2));
  double f = in(0) <= 1 ? in(0) : 1 / in(0);
  return p(2) > -(f * d);
}
// away from where the distortion changes to another formula
static void awayFromSwitch(int m, const V2& u) {
  double n = u(0) * u(0) + u(1) * u(1);
  if (m == kEqui) symx_assume(n > 1.1e-16);
  if (m == kFish) symx_assume(n > 1.01e-5);
}
static St status(const V3& p, const V2& k) {
  const bool in = k(0) >= 0 && k(1) >= 0 && k(0) < W && k(1) < H;
  if (unified()) return in ? St::KEYPOINT_VISIBLE : St::KEYPOINT_OUTSIDE_IMAGE_BOX;
  if (p(2) > 1e-10) return in ? St::KEYPOINT_VISIBLE : St::KEYPOINT_OUTSIDE_IMAGE_BOX;
  return p(2) < 0 ? St::POINT_BEHIND_CAMERA : St::PROJECTION_INVALID;
}
static void equal(const V2& a, const V2& b, const char* what) {
  symx_real_eq_impl(a(0), b(0), what, 1e-9);
  symx_real_eq_impl(a(1), b(1), what, 1e-9);
}
static V2 expected(const Eigen::VectorXd& in, const Distortion& d, const V3& p) {
  V2 u = plane(in, p);
  d.distort(&u);
  const int o = unified();
  return V2(in(o) * u(0) + in(o + 2), in(o + 1) * u(1) + in(o + 3));
}
static void projection() {
  const int m = model();
  Eigen::VectorXd in = intrinsics(), c = coeffs(m);
  V3 p = point3();
  std::unique_ptr<Camera> cam = camera(in, m, c);
  V2 k(7, 7);
  if (!projectable(in, p)) {
    ProjectionResult r = cam->project3(p, &k);
    SYMX_ASSERT(r.getDetailedStatus() == St::PROJECTION_INVALID && !r, "a point the mirror does not show has no projection");
    SYMX_ASSERT((k(0) == 0) & (k(1) == 0), "a point the mirror does not show has no projection");
    symx_reach("notProjectable");
    return;
  }
  awayFromSwitch(m, plane(in, p));
  V2 e = expected(in, cam->getDistortion(), p);
  ProjectionResult r = cam->project3(p, &k);
  equal(k, e, "the projection is the distorted image scaled by the focal length and moved to the centre");
  const St want = status(p, k);
  SYMX_ASSERT(r.getDetailedStatus() == want, "what the projection reports");
  SYMX_ASSERT(r.isKeypointVisible() == (want == St::KEYPOINT_VISIBLE), "visible only within the image and in front of the camera");
  SYMX_ASSERT(cam->isProjectable3(p) == (want == St::KEYPOINT_VISIBLE), "projectable if visible");
  if (want == St::KEYPOINT_VISIBLE) symx_reach("visible");
  else if (want == St::KEYPOINT_OUTSIDE_IMAGE_BOX) symx_reach("outside");
  else if (want == St::POINT_BEHIND_CAMERA) symx_reach("behind");
}
static void forms() {
  const int m = model();
  Eigen::VectorXd in = intrinsics(), c = coeffs(m);
  V3 p = point3();
  std::unique_ptr<Camera> cam = camera(in, m, c), out = camera(otherIntrinsics(), m, otherCoeffs(m));
  const bool ok = projectable(in, p);
  if (ok) awayFromSwitch(m, plane(in, p));
  V2 k, t;
  const ProjectionResult r = cam->project3(p, &k);
  const char* what = "all ways of projecting a point agree";
  t = V2(-1, -1);
  SYMX_ASSERT(out->project3Functional(p, &in, &c, &t) == r, what);
  equal(t, k, what);
  t = V2(-1, -1);
  SYMX_ASSERT(cam->project3Functional(p, nullptr, nullptr, &t) == r, what);
  equal(t, k, what);
  M23 J;
  t = V2(-1, -1);
  SYMX_ASSERT(cam->project3(p, &t, &J) == r, what);
  equal(t, k, what);
  M2X JI, JD;
  t = V2(-1, -1);
  SYMX_ASSERT(out->project3Functional(p, &in, &c, &t, &J, &JI, &JD) == r, what);
  equal(t, k, what);
  const bool negative = symx_choose("negative", 0, 1);
  double w = bounded("w", -8, 8);
  if (negative) symx_assume(w < 0);
  else symx_assume(w >= 0);
  V4 h;
  h << (negative ? V3(-p) : p), w;
  t = V2(-1, -1);
  SYMX_ASSERT(cam->project4(h, &t) == r, "a homogeneous point is projected like the point it stands for");
  equal(t, k, "a homogeneous point is projected like the point it stands for");
  Eigen::Matrix3Xd ps(3, 2);
  ps.col(0) = V3(0.25, 0.125, 2);
  ps.col(1) = p;
  Eigen::Matrix2Xd ks;
  std::vector<ProjectionResult> rs;
  cam->project3Vectorized(ps, &ks, &rs);
  V2 first;
  const ProjectionResult r0 = cam->project3(V3(0.25, 0.125, 2), &first);
  SYMX_ASSERT(ks.cols() == 2 && rs.size() == 2 && rs[1] == r && rs[0] == r0, "many points are projected like each of them");
  equal(ks.col(1), k, "many points are projected like each of them");
  equal(ks.col(0), first, "many points are projected like each of them");
  if (ok) symx_reach("forms");
  else symx_reach("formsInvalid");
}
template <class D>
static void templated(const D&, const PinholeCamera& cam, const PinholeCamera& out, const Eigen::VectorXd& in, const Eigen::VectorXd& c, const V3& p) {
  V2 k, t(-1, -1);
  const ProjectionResult r = cam.project3(p, &k);
  const ProjectionResult q = out.project3Functional<double, D>(p, in, c, &t);
  SYMX_ASSERT(q == r, "the generic projection agrees with the specialised one");
  equal(t, k, "the generic projection agrees with the specialised one");
  symx_reach("templated");
}
static void generic() {
  const int m = model();
  Eigen::VectorXd in = intrinsics(), c = coeffs(m);
  V3 p = point3();
  awayFromSwitch(m, plane(in, p));
  Distortion::UniquePtr a(make(m, c)), b(make(m, otherCoeffs(m)));
  PinholeCamera cam(in, W, H, a), out(otherIntrinsics(), W, H, b);
  if (m == kFish) templated(FisheyeDistortion(otherCoeffs(m)), cam, out, in, c, p);
  else templated(NullDistortion(), cam, out, in, c, p);
}
static V2 keypoint() { return V2(bounded("u", -100, 100), bounded("v", -100, 100)); }
static void backProjection() {
  const int m = model();
  Eigen::VectorXd in = intrinsics(), c = coeffs(m);
  V2 k = keypoint();
  std::unique_ptr<Camera> cam = camera(in, m, c);
  FLAGS_acv_inv_distortion_tolerance = 1e6;  // a single step of the inversion
  const int o = unified();
  V2 u((k(0) - in(o + 2)) / in(o), (k(1) - in(o + 3)) / in(o + 1));
  if (m == kRadTan || m == kEqui) {
    symx_assume((std::abs(u(0)) <= 8) & (std::abs(u(1)) <= 8));
    if (m == kEqui) symx_assume(u(0) * u(0) + u(1) * u(1) >= 1e-6);
    V2 t = u;
    M2 J;
    cam->getDistortion().distort(&t, &J);
    symx_assume(J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0) != 0);
    symx_assume((u - t).squaredNorm() <= 1e6);
  }
  if (m == kFish) symx_assume(std::sqrt(u(0) * u(0) + u(1) * u(1)) * c(0) <= 1.5);
  cam->getDistortion().undistort(&u);
  V3 p(5, 5, 5);
  const bool ok = cam->backProject3(k, &p);
  const char* what = "the ray goes through the undistorted keypoint";
  if (!unified()) {
    SYMX_ASSERT(ok, "every keypoint has a ray");
    symx_real_eq_impl(p(0), u(0), what, 1e-9);
    symx_real_eq_impl(p(1), u(1), what, 1e-9);
    symx_real_eq_impl(p(2), 1, what, 1e-9);
  } else {
    const double xi = in(0), n = u(0) * u(0) + u(1) * u(1), q = 1 + (1 - xi * xi) * n;
    SYMX_ASSERT(ok == (xi <= 1 || n * (xi * xi - 1) <= 1), "a keypoint has a ray if it lies on the mirror");
    if (!ok) {
      symx_reach("noRay");
      return;
    }
    // projecting this ray leads back to the keypoint
    const double s = std::sqrt(q), len = (n + 1) / (xi + s);
    symx_real_eq_impl(p(0), u(0), what, 1e-9);
    symx_real_eq_impl(p(1), u(1), what, 1e-9);
    symx_real_eq_impl(p(2) + xi * len, 1, what, 1e-9);
    symx_real_eq_impl(p(0) * p(0) + p(1) * p(1) + p(2) * p(2), len * len, what, 1e-9);
  }
  V4 h(5, 5, 5, 5);
  SYMX_ASSERT(cam->backProject4(k, &h) == ok, "the ray is a direction");
  for (int i = 0; i < 3; i++) symx_real_eq_impl(h(i), p(i), "the ray is a direction", 1e-9);
  SYMX_ASSERT(h(3) == 0, "the ray is a direction");
  Eigen::Matrix2Xd ks(2, 2);
  ks.col(0) = k;
  ks.col(1) = k;
  Eigen::Matrix3Xd ps;
  std::vector<unsigned char> oks;
  cam->backProject3Vectorized(ks, &ps, &oks);
  SYMX_ASSERT(ps.cols() == 2 && oks.size() == 2 && oks[0] == ok && oks[1] == ok, "many keypoints are treated like each of them");
  for (int i = 0; i < 6; i++) symx_real_eq_impl(ps(i % 3, i / 3), p(i % 3), "many keypoints are treated like each of them", 1e-9);
  symx_reach("ray");
}
// projecting along the ray of a keypoint leads back to it (the pinhole camera
// with a distortion that has a closed inverse)
static void roundTrip() {
  const int m = model();
  Eigen::VectorXd in = intrinsics(), c = coeffs(m);
  V2 k = keypoint();
  std::unique_ptr<Camera> cam = camera(in, m, c);
  V2 u((k(0) - in(2)) / in(0), (k(1) - in(3)) / in(1));
  if (m == kFish) symx_assume((std::sqrt(u(0) * u(0) + u(1) * u(1)) * c(0) <= 1.5) & (u(0) * u(0) + u(1) * u(1) >= 1e-4));
  V3 p;
  cam->backProject3(k, &p);
  awayFromSwitch(m, V2(p(0), p(1)));
  double depth = bounded("depth", 0.125, 8);
  V2 t;
  const ProjectionResult r = cam->project3(p * depth, &t);
  equal(t, k, "projecting along the ray of a keypoint leads back to it");
  SYMX_ASSERT(r == status(V3(0, 0, 1), t), "what is reported for a point on the ray of a keypoint");
  symx_reach("roundTrip");
}
static void box() {
  Eigen::VectorXd in = otherIntrinsics();
  PinholeCamera cam(in, W, H);
  double x = symx_f64("x"), y = symx_f64("y"), margin = symx_f64("margin");
  V2 k(x, y);
  SYMX_ASSERT(cam.isKeypointVisible(k) == ((x >= 0) & (y >= 0) & (x < W) & (y < H)), "inside the image from 0 up to the size, exclusively");
  Eigen::Vector2f kf(symx_f32("xf"), symx_f32("yf"));
  SYMX_ASSERT(cam.isKeypointVisible(kf) == ((kf(0) >= 0) & (kf(1) >= 0) & (kf(0) < W) & (kf(1) < H)), "inside the image from 0 up to the size, exclusively");
  int v = -1;
  const bool bad = symx_try([&] { v = cam.isKeypointVisibleWithMargin(k, margin); }) != 0;
  SYMX_ASSERT(bad == !(2 * margin < H), "a margin has to leave something of the image");
  if (!bad) SYMX_ASSERT(v == ((x >= margin) & (y >= margin) & (x < W - margin) & (y < H - margin)), "inside with a margin");
  if (bad) symx_reach("badMargin");
  else symx_reach("box");
}
// ---- derivatives
static bool nearSwitch3(int m, const V2& u) {
  if (!symx_native()) return false;
  double r = u.norm();
  return m == kEqui ? r < 1e-3 : m == kFish ? r * r < 1.2e-5 : false;
}
static void pointDerivative() {
  const int m = model();
  Eigen::VectorXd in = intrinsics(), c = coeffs(m);
  V3 p = point3();
  if (!projectable(in, p)) symx_skip();
  V2 u = plane(in, p);
  awayFromSwitch(m, u);
  std::unique_ptr<Camera> cam = camera(in, m, c);
  V2 k;
  M23 J = M23::Constant(symx_f64("junk"));
  cam->project3(p, &k, &J);
  symx_reach("pointDerivative");
  if (symx_native() && (nearSwitch3(m, u) || std::abs(p(2)) < 0.05 || p.norm() < 0.05)) return;
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < 3; j++) {
      double e = derivative([&](double v) { V3 q = p; q(j) = v; V2 t; cam->project3(q, &t); return t(i); }, p(j), k(i));
      symx_real_eq_impl(J(i, j), e, "the derivative of the projection with respect to the point", 1e-6);
    }
}
static void parameterDerivatives() {
  const int m = model();
  Eigen::VectorXd in = intrinsics(), c = coeffs(m);
  V3 p = point3();
  if (!projectable(in, p)) symx_skip();
  V2 u = plane(in, p);
  awayFromSwitch(m, u);
  std::unique_ptr<Camera> cam = camera(otherIntrinsics(), m, otherCoeffs(m));
  V2 k;
  M2X JI(2, 1), JD(2, 1);
  JI.setConstant(3);
  JD.setConstant(3);
  const int which = (int)symx_choose("which", 0, 2);  // the derivatives asked for
  cam->project3Functional(p, &in, &c, &k, nullptr, which != 1 ? &JI : nullptr, which != 0 ? &JD : nullptr);
  symx_reach("parameterDerivatives");
  if (which != 1) SYMX_ASSERT(JI.rows() == 2 && JI.cols() == in.size(), "one column per intrinsic parameter");
  if (which != 0) SYMX_ASSERT(JD.rows() == 2 && JD.cols() == numCoeffs(m), "one column per coefficient");
  if (symx_native() && (nearSwitch3(m, u) || std::abs(p(2)) < 0.05 || p.norm() < 0.05)) return;
  if (m == kFish && c(0) == 0) symx_skip();
  for (int i = 0; i < 2; i++) {
    if (which != 1)
      for (int j = 0; j < JI.cols(); j++) {
        if (symx_is_real_mode() && !symx_is_symbolic(reinterpret_cast<uint64_t&>(in(j)))) continue;
        double e = derivative([&](double v) { Eigen::VectorXd q = in; q(j) = v; V2 t; cam->project3Functional(p, &q, &c, &t); return t(i); }, in(j), k(i));
        symx_real_eq_impl(JI(i, j), e, "the derivative of the projection with respect to the intrinsic parameters", 1e-6);
      }
    if (which != 0)
      for (int j = 0; j < JD.cols(); j++) {
        if (symx_is_real_mode() && !symx_is_symbolic(reinterpret_cast<uint64_t&>(c(j)))) continue;
        double e = derivative([&](double v) { Eigen::VectorXd q = c; q(j) = v; V2 t; cam->project3Functional(p, &in, &q, &t); return t(i); }, c(j), k(i));
        symx_real_eq_impl(JD(i, j), e, "the derivative of the projection with respect to the distortion coefficients", 1e-6);
      }
  }
}
static void homogeneousDerivative() {
  const int m = model();
  Eigen::VectorXd in = intrinsics(), c = coeffs(m);
  V3 p = point3();
  if (!projectable(in, p)) symx_skip();
  V2 u = plane(in, p);
  awayFromSwitch(m, u);
  std::unique_ptr<Camera> cam = camera(in, m, c);
  const bool negative = symx_choose("negative", 0, 1);
  double w = bounded("w", -8, 8);
  if (negative) symx_assume(w < -0.01);
  else symx_assume(w > 0.01);
  V4 h;
  h << (negative ? V3(-p) : p), w;
  V2 k;
  Eigen::Matrix<double, 2, 4> J;
  J.setConstant(9);
  cam->project4(h, &k, &J);
  symx_reach("homogeneousDerivative");
  if (symx_native() && (nearSwitch3(m, u) || std::abs(p(2)) < 0.05 || p.norm() < 0.05)) return;
  for (int i = 0; i < 2; i++) {
    for (int j = 0; j < 3; j++) {
      double e = derivative([&](double v) { V4 q = h; q(j) = v; V2 t; cam->project4(q, &t); return t(i); }, h(j), k(i));
      symx_real_eq_impl(J(i, j), e, "the derivative of the projection with respect to the homogeneous point", 1e-6);
    }
    SYMX_ASSERT(J(i, 3) == 0, "the projection does not depend on the last coordinate");
  }
}
extern "C" void symx_main() {
  symx_clock_fixed = 1000000000;
  switch (symx_param("case", 0)) {
    case 0: projection(); break;
    case 1: forms(); break;
    case 2: generic(); break;
    case 3: backProjection(); break;
    case 4: roundTrip(); break;
    case 5: box(); break;
    case 6: pointDerivative(); break;
    case 7: parameterDerivatives(); break;
    case 8: homogeneousDerivative(); break;
  }
}
