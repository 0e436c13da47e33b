// Distortion models: derivatives (P23), inverse (P24), model, API forms (P25).
#include "distortion_models.inc"
static void pointJacobian() {
  const int m = model();
  V2 p = point(8);
  Eigen::VectorXd c = coeffs(m);
  notInTheGap(m, p);
  std::unique_ptr<Distortion> d(make(m, c));
  M2 J = M2::Constant(symx_f64("junk"));
  V2 q = p;
  d->distort(&q, &J);
  if (!nearSwitch(m, p, c))
    for (int i = 0; i < 2; i++)
      for (int j = 0; j < 2; j++) {
        double e = derivative([&](double v) { V2 t = p; t(j) = v; d->distort(&t); return t(i); }, p(j), q(i));
        symx_real_eq_impl(J(i, j), e, "the derivative of the distortion with respect to the point", 1e-9);
      }
  symx_reach("pointJacobian");
}
static void parameterJacobian() {
  const int m = model();
  V2 p = point(8);
  Eigen::VectorXd c = coeffs(m);
  notInTheGap(m, p);
  std::unique_ptr<Distortion> d(make(m, otherCoeffs(m)));
  M2X J(2, 1);
  J.setConstant(5);
  d->distortParameterJacobian(&c, p, &J);
  SYMX_ASSERT(J.rows() == 2 && J.cols() == numCoeffs(m), "one column per parameter");
  V2 q = p;
  d->distortUsingExternalCoefficients(&c, &q, nullptr);
  if (m == kFish && c(0) == 0) symx_skip();  // the model is only continued to 0
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < J.cols(); j++) {
      if (symx_is_real_mode() && !symx_is_symbolic(reinterpret_cast<uint64_t&>(c(j)))) continue;
      double e = derivative([&](double v) { Eigen::VectorXd k = c; k(j) = v; V2 t = p; d->distortUsingExternalCoefficients(&k, &t, nullptr); return t(i); }, c(j), q(i));
      symx_real_eq_impl(J(i, j), e, "the derivative of the distortion with respect to its parameters", 1e-9);
    }
  symx_reach("parameterJacobian");
}
static void nothingToDeriveBy() {
  NullDistortion d;
  V2 p = point(8);
  V2 q = p;
  M2 J = M2::Constant(3);
  d.distort(&q, &J);
  symx_real_eq_impl(q(0), p(0), "no distortion leaves the point as it is", 0);
  symx_real_eq_impl(q(1), p(1), "no distortion leaves the point as it is", 0);
  SYMX_ASSERT((J(0, 0) == 1) & (J(1, 1) == 1) & (J(0, 1) == 0) & (J(1, 0) == 0), "the derivative of the identity");
  M2X P(2, 3);
  Eigen::VectorXd none;
  d.distortParameterJacobian(&none, p, &P);
  SYMX_ASSERT(P.rows() == 2 && P.cols() == 0, "no parameters to derive by");
  V2 u = p;
  d.undistort(&u);
  symx_real_eq_impl(u(0), p(0), "no distortion leaves the point as it is", 0);
  symx_real_eq_impl(u(1), p(1), "no distortion leaves the point as it is", 0);
  symx_reach("nothing");
}
// ---- the inverse
static void closedFormInverse() {
  V2 p = point(1000);
  Eigen::VectorXd c = coeffs(kFish);
  // the model is continued linearly around the centre
  double n = p(0) * p(0) + p(1) * p(1);
  symx_assume(n >= 1.01e-5);
  const bool before = symx_bool("distortFirst");
  FisheyeDistortion d(c);
  V2 q = p;
  if (before) {
    d.distort(&q);
    // valid up to 89 degrees
    double a = std::sqrt(q(0) * q(0) + q(1) * q(1)) * c(0);
    symx_assume(a <= 1.553);
    d.undistort(&q);
  } else {
    symx_assume(std::sqrt(n) * c(0) <= 1.553);
    d.undistort(&q);
    symx_assume(q(0) * q(0) + q(1) * q(1) >= 1.01e-5);
    d.distort(&q);
  }
  symx_real_eq_impl(q(0), p(0), "undistorting and distorting are inverse to each other", 1e-9);
  symx_real_eq_impl(q(1), p(1), "undistorting and distorting are inverse to each other", 1e-9);
  symx_reach("closedForm");
}
// around the centre the model is continued by its linearisation
static void inverseAtCentre() {
  V2 p = point(0.003);
  Eigen::VectorXd c(1);
  c(0) = (double)symx_choose("w8", 4, 12) / 8;
  FisheyeDistortion d(c);
  V2 q = p;
  d.distort(&q);
  double f = 2 * std::tan(c(0) / 2) / c(0);
  double n = p(0) * p(0) + p(1) * p(1);
  symx_assume(n <= 0.99e-5);
  symx_real_eq_impl(q(0), p(0) * f, "linear around the centre", 1e-12);
  symx_real_eq_impl(q(1), p(1) * f, "linear around the centre", 1e-12);
  symx_reach("centre");
}
// One step: the result solves the linearisation at the input.
static void newtonStep() {
  const int m = model();
  V2 y = symx_param("axis", 0) ? V2(symx_f64("x"), 0) : point(8);
  if (symx_param("axis", 0)) symx_assume(std::abs(y(0)) <= 8);
  if (m == kEqui) symx_assume(y(0) * y(0) + y(1) * y(1) >= 1e-6);
  Eigen::VectorXd c = coeffs(m);
  std::unique_ptr<Distortion> d(make(m, otherCoeffs(m)));
  d->setParameters(c);
  FLAGS_acv_inv_distortion_tolerance = INFINITY;
  V2 t = y;
  M2 J;
  d->distort(&t, &J);
  symx_assume(J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0) != 0);
  V2 q = y;
  d->undistort(&q);
  V2 s = q - y;
  for (int i = 0; i < 2; i++)
    symx_real_eq_impl(J(i, 0) * s(0) + J(i, 1) * s(1), y(i) - t(i), "a step of the inversion solves the linearised model", 1e-7);
  symx_reach("newton");
}
// On the axis: the iteration goes on until the error was within the tolerance.
static void iteration() {
  const int m = model();
  double x = symx_f64("x"), T = symx_f64("tolerance");
  symx_assume((std::abs(x) <= 0.5) & (T >= 1e-12) & (T <= 1) & (x * x >= 1e-5));
  Eigen::VectorXd c(4);
  c << (m == kEqui ? 0 : 0.25), 0, 0, symx_param("k", 0) * 0.125;
  std::unique_ptr<Distortion> d(make(m, c));
  FLAGS_acv_inv_distortion_tolerance = T;
  double cur = x;
  bool done = false;
  for (int i = 0; i < 2 && !done; i++) {
    V2 t(cur, 0);
    M2 J;
    d->distort(&t, &J);
    symx_assume((J(0, 0) != 0) & (J(1, 1) != 0));
    double e = x - t(0);
    cur = cur + e / J(0, 0);
    done = e * e <= T;
  }
  symx_assume(done);
  V2 q(x, 0);
  d->undistort(&q);
  symx_real_eq_impl(q(0), cur, "the inversion goes on until the error is within the tolerance, and no further", 1e-9);
  symx_real_eq_impl(q(1), 0, "the inversion stays on the axis", 1e-9);
  symx_reach("iteration");
}
// the distortion of the result of a converged inversion is the input
static void exactFixpoint() {
  const int m = model();
  V2 y = point(8);
  Eigen::VectorXd c(4);
  c.setZero();
  std::unique_ptr<Distortion> d(make(m, c));
  symx_assume(m == kRadTan);
  if (symx_choose("never", 0, 1)) FLAGS_acv_inv_distortion_tolerance = -1;
  V2 q = y;
  d->undistort(&q);
  symx_real_eq_impl(q(0), y(0), "a solution is not left again, and the inversion ends", 1e-9);
  symx_real_eq_impl(q(1), y(1), "a solution is not left again, and the inversion ends", 1e-9);
  symx_reach("fixpoint");
}
// a point around the centre is its own inverse image
static void equiCentre() {
  V2 y = point(0.001);
  symx_assume(y(0) * y(0) + y(1) * y(1) < 0.99e-6);
  Eigen::VectorXd c = coeffs(kEqui);
  EquidistantDistortion d(c);
  V2 q = y;
  d.undistort(&q);
  symx_real_eq_impl(q(0), y(0), "a point around the centre is its own inverse image", 1e-9);
  symx_real_eq_impl(q(1), y(1), "a point around the centre is its own inverse image", 1e-9);
  symx_reach("equiCentre");
}
// ---- the models
static void formula() {
  const int m = model();
  V2 p = point(8);
  Eigen::VectorXd c = coeffs(m);
  double x = p(0), y = p(1), r2 = x * x + y * y;
  double ex, ey;
  if (m == kRadTan) {
    double radial = 1 + c(0) * r2 + c(1) * r2 * r2;
    ex = x * radial + 2 * c(2) * x * y + c(3) * (r2 + 2 * x * x);
    ey = y * radial + c(2) * (r2 + 2 * y * y) + 2 * c(3) * x * y;
  } else if (m == kEqui) {
    symx_assume(r2 > 1.1e-16);
    double r = std::sqrt(r2), th = std::atan(r), t2 = th * th;
    double s = th * (1 + t2 * (c(0) + t2 * (c(1) + t2 * (c(2) + t2 * c(3))))) / r;
    ex = x * s;
    ey = y * s;
  } else {
    symx_assume((r2 > 1.01e-5) & (c(0) > 0));
    double r = std::sqrt(r2), s = std::atan(2 * r * std::tan(c(0) / 2)) / (c(0) * r);
    ex = x * s;
    ey = y * s;
  }
  std::unique_ptr<Distortion> d(make(m, c));
  V2 q = p;
  d->distort(&q);
  symx_real_eq_impl(q(0), ex, "the published model", 1e-9);
  symx_real_eq_impl(q(1), ey, "the published model", 1e-9);
  symx_reach("formula");
}
static void noEffect() {
  const int m = model();
  V2 p = point(8);
  Eigen::VectorXd c(numCoeffs(m));
  c.setZero();
  std::unique_ptr<Distortion> d(make(m, c));
  V2 q = p;
  d->distort(&q);
  if (m == kEqui) {  // keeps the direction, the radius becomes the angle
    double r = std::sqrt(p(0) * p(0) + p(1) * p(1));
    symx_assume(r > 1.1e-8);
    symx_real_eq_impl(q(0) * r, p(0) * std::atan(r), "the radius becomes the angle", 1e-9);
    symx_real_eq_impl(q(1) * r, p(1) * std::atan(r), "the radius becomes the angle", 1e-9);
  } else {
    symx_real_eq_impl(q(0), p(0), "without coefficients nothing is distorted", 1e-12);
    symx_real_eq_impl(q(1), p(1), "without coefficients nothing is distorted", 1e-12);
    V2 u = p;
    if (m == kFish) {
      d->undistort(&u);
      symx_real_eq_impl(u(0), p(0), "without coefficients nothing is distorted", 1e-12);
      symx_real_eq_impl(u(1), p(1), "without coefficients nothing is distorted", 1e-12);
    }
  }
  symx_reach("noEffect");
}
static void same(const V2& a, const V2& b, const char* what) {
  symx_real_eq_impl(a(0), b(0), what, 1e-12);
  symx_real_eq_impl(a(1), b(1), what, 1e-12);
}
static void forms() {
  const int m = model();
  const V2 p = point(8);
  const Eigen::VectorXd c = coeffs(m), o = otherCoeffs(m);
  notInTheGap(m, p);
  std::unique_ptr<Distortion> in(make(m, c)), out(make(m, o));
  V2 q = p;
  in->distort(&q);
  const char* what = "all ways of distorting give the same result";
  V2 t = p;
  in->distort(p, &t);
  same(t, q, what);
  M2 J, K;
  t = p;
  in->distort(&t, &J);
  same(t, q, what);
  t = p;
  in->distortUsingExternalCoefficients(nullptr, &t, nullptr);
  same(t, q, what);
  t = p;
  out->distortUsingExternalCoefficients(&c, &t, &K);
  same(t, q, what);
  for (int i = 0; i < 4; i++) symx_real_eq_impl(J(i / 2, i % 2), K(i / 2, i % 2), "all ways of distorting give the same derivative", 1e-12);
  out->setParameters(c);
  t = p;
  out->distort(&t);
  same(t, q, "the parameters that were set are used");
  std::unique_ptr<Distortion> copy(in->clone());
  in->setParameters(o);
  t = p;
  copy->distort(&t);
  same(t, q, "a copy keeps its own parameters");
  if (m == kFish) {
    V2 u(7, 7);
    static_cast<FisheyeDistortion&>(*in).distortUsingExternalCoefficients<double>(c, p, &u);
    same(u, q, "the templated form gives the same result");
  }
  symx_reach("forms");
}
static void parameterForms() {
  const int m = model();
  const V2 p = point(8);
  const Eigen::VectorXd c = coeffs(m), o = otherCoeffs(m);
  std::unique_ptr<Distortion> in(make(m, c)), out(make(m, o));
  M2X A, B;
  in->distortParameterJacobian(nullptr, p, &A);
  out->distortParameterJacobian(&c, p, &B);
  SYMX_ASSERT(A.rows() == 2 && B.rows() == 2 && A.cols() == numCoeffs(m) && B.cols() == numCoeffs(m), "one column per parameter");
  for (int j = 0; j < A.cols(); j++)
    for (int i = 0; i < 2; i++) symx_real_eq_impl(A(i, j), B(i, j), "without coefficients given the internal ones are used", 1e-12);
  symx_reach("parameterForms");
}
static void undistortForms() {
  const int m = model();
  const V2 p = point(1);
  const Eigen::VectorXd c = coeffs(m), o = otherCoeffs(m);
  std::unique_ptr<Distortion> in(make(m, c)), out(make(m, o));
  FLAGS_acv_inv_distortion_tolerance = INFINITY;
  if (m != kNull) {
    V2 t = p;
    M2 J;
    in->distort(&t, &J);
    symx_assume(J(0, 0) * J(1, 1) - J(0, 1) * J(1, 0) != 0);
  }
  V2 q = p;
  in->undistort(&q);
  const char* what = "all ways of undistorting give the same result";
  V2 t(7, 7);
  in->undistort(p, &t);
  same(t, q, what);
  t = p;
  out->undistortUsingExternalCoefficients(c, &t);
  same(t, q, what);
  symx_reach("undistortForms");
}
// ---- parameters, comparison
static void parameters() {
  const int m = model();
  const int n = (int)symx_choose("size", 0, 6);
  Eigen::VectorXd c(n);
  for (int i = 0; i < n; i++) c(i) = symx_f64("c");
  bool good = m == kNull || n == numCoeffs(m);
  if (m == kFish && n == 1) {
    const double w = c(0), a = w < 0 ? -w : w;
    good = (a < 1e-16) | ((w >= 0.5) & (w <= 1.5));
  }
  bool said = false;
  if (m == kNull) said = NullDistortion::areParametersValid(c);
  if (m == kRadTan) said = RadTanDistortion::areParametersValid(c);
  if (m == kEqui) said = EquidistantDistortion::areParametersValid(c);
  if (m == kFish) said = FisheyeDistortion::areParametersValid(c);
  SYMX_ASSERT(said == good, "exactly the parameters a model can use are valid");
  std::unique_ptr<Distortion> d(make(m, otherCoeffs(m)));
  SYMX_ASSERT(d->distortionParametersValid(c) == good, "exactly the parameters a model can use are valid");
  SYMX_ASSERT(d->getParameterSize() == numCoeffs(m), "the number of parameters");
  if (m != kNull) {
    const bool g = symx_concretize(good);
    int rc = symx_try([&] { d->setParameters(c); });
    SYMX_ASSERT(rc == (g ? 0 : 1), "only valid parameters can be set");
    if (g) for (int i = 0; i < n; i++) SYMX_ASSERT(d->getParameters()(i) == c(i) || c(i) != c(i), "the parameters are the ones that were set");
    int rk = symx_try([&] { std::unique_ptr<Distortion> e(make(m, c)); });
    SYMX_ASSERT(rk == (g ? 0 : 1), "only valid parameters can be used");
    if (n != numCoeffs(m)) {
      V2 q(1, 2);
      M2X J;
      int a = symx_try([&] { d->distortUsingExternalCoefficients(&c, &q, nullptr); });
      int b = symx_try([&] { d->undistortUsingExternalCoefficients(c, &q); });
      int e = symx_try([&] { d->distortParameterJacobian(&c, q, &J); });
      SYMX_ASSERT(a == 1 && b == 1 && e == 1, "coefficients of another number are refused");
    }
  }
  symx_reach("parameters");
}
static void comparison() {
  const int a = (int)symx_choose("first", 0, 3), b = (int)symx_choose("second", 0, 3);
  Eigen::VectorXd c(numCoeffs(a)), e(numCoeffs(b));
  bool equal = a == b;
  for (int i = 0; i < c.size(); i++) { c(i) = symx_f64("c"); if (a == kFish) symx_assume((c(i) >= 0.5) & (c(i) <= 1.5)); }
  for (int i = 0; i < e.size(); i++) { e(i) = symx_f64("e"); if (b == kFish) symx_assume((e(i) >= 0.5) & (e(i) <= 1.5)); }
  for (int i = 0; a == b && i < c.size(); i++) equal = equal & (c(i) == e(i));
  std::unique_ptr<Distortion> x(make(a, c)), y(make(b, e));
  SYMX_ASSERT((*x == *y) == equal, "equal exactly with the same model and the same parameters");
  SYMX_ASSERT((*y == *x) == equal, "equal exactly with the same model and the same parameters");
  std::unique_ptr<Distortion> z(x->clone());
  bool nan = false;
  for (int i = 0; i < c.size(); i++) nan = nan | (c(i) != c(i));
  SYMX_ASSERT((*x == *z) | nan, "a copy is equal");
  SYMX_ASSERT(z->getType() == x->getType(), "a copy is of the same type");
  const Distortion::Type ts[4] = {Distortion::Type::kNoDistortion, Distortion::Type::kRadTan, Distortion::Type::kEquidistant, Distortion::Type::kFisheye};
  SYMX_ASSERT(x->getType() == ts[a], "the type says which model it is");
  symx_reach("comparison");
}
extern "C" void symx_main() {
  switch (symx_param("case", 0)) {
    case 0: return pointJacobian();
    case 1: return parameterJacobian();
    case 2: return nothingToDeriveBy();
    case 3: return closedFormInverse();
    case 4: return inverseAtCentre();
    case 5: return newtonStep();
    case 6: return iteration();
    case 7: return exactFixpoint();
    case 8: return equiCentre();
    case 9: return formula();
    case 10: return noEffect();
    case 11: return forms();
    case 12: return parameterForms();
    case 13: return undistortForms();
    case 14: return parameters();
    case 15: return comparison();
  }
}
