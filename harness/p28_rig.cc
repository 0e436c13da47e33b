// Camera rigs (P28), state of a single camera (P29).
#include <opencv2/imgproc/imgproc_c.h>
#include <aslam/cameras/camera-factory.h>
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include <aslam/cameras/ncamera.h>
#include <opencv2/core/core.hpp>
#include <vector>
#include "distortion_models.inc"
typedef ProjectionResult::Status St;
static Eigen::VectorXd four(double a, double b, double c, double d) { return Eigen::Vector4d(a, b, c, d); }
static Camera::Ptr pinhole(double f = 8, int m = kRadTan) {
  Distortion::UniquePtr d(make(m, otherCoeffs(m)));
  return Camera::Ptr(new PinholeCamera(four(f, 9, 10, 11), 40, 30, d));
}
static Camera::Ptr mirror(int m = kFish) {
  Distortion::UniquePtr d(make(m, otherCoeffs(m)));
  Eigen::VectorXd v(5);
  v << 0.5, 8, 9, 10, 11;
  return Camera::Ptr(new UnifiedProjectionCamera(v, 40, 30, d));
}
static Transformation pose(double x) { return Transformation(Quaternion(), Position3D(x, 2, 3)); }
struct Expected { std::vector<CameraId> ids; std::vector<const Camera*> cams; std::vector<double> x; };
static std::vector<CameraId> known;  // every id there ever was
static void consistent(NCamera& rig, const Expected& e) {
  const NCamera& c = rig;
  const size_t n = e.ids.size();
  SYMX_ASSERT(c.getNumCameras() == n && c.numCameras() == n && c.getCameraVector().size() == n && c.getTransformationVector().size() == n, "number of cameras");
  for (size_t i = 0; i < n; i++) {
    SYMX_ASSERT(c.getCameraId(i) == e.ids[i] && c.getCamera(i).getId() == e.ids[i], "the camera at an index keeps its id");
    SYMX_ASSERT(c.hasCameraWithId(e.ids[i]), "a camera of the rig is found by its id");
    SYMX_ASSERT(c.getCameraIndex(e.ids[i]) == (int)i, "a camera of the rig is found by its id at its index");
    if (e.cams[i]) SYMX_ASSERT(&c.getCamera(i) == e.cams[i] && rig.getCameraShared(i).get() == e.cams[i] && c.getCameraShared(i).get() == e.cams[i] && &rig.getCameraMutable(i) == e.cams[i], "the camera put at an index");
    SYMX_ASSERT(c.get_T_C_B(i).getPosition()(0) == e.x[i] && rig.get_T_C_B_Mutable(i).getPosition()(0) == e.x[i], "the pose of the camera at an index");
    const Transformation* t = nullptr;
    const int r = symx_try([&] { t = &c.get_T_C_B(e.ids[i]); });
    SYMX_ASSERT(r == 0 && t == &c.get_T_C_B(i), "the pose of a camera is found by its id");
    Transformation* tm = nullptr;
    const int rm = symx_try([&] { tm = &rig.get_T_C_B_Mutable(e.ids[i]); });
    SYMX_ASSERT(rm == 0 && tm == t, "the pose of a camera is found by its id");
  }
  for (const CameraId& id : known) {
    bool mine = false;
    for (const CameraId& k : e.ids) mine = mine || k == id;
    if (mine) continue;
    SYMX_ASSERT(!c.hasCameraWithId(id) && c.getCameraIndex(id) == -1, "no camera is found by the id of none");
    SYMX_ASSERT(symx_try([&] { c.get_T_C_B(id); }) != 0, "no pose is given for the id of no camera");
  }
}
static void remember(const std::vector<CameraId>& ids) { known.insert(known.end(), ids.begin(), ids.end()); }
static NCamera::Ptr makeRig(int n, Expected* e) {
  std::vector<Camera::Ptr> cams;
  TransformationVector T;
  for (int i = 0; i < n; i++) {
    cams.push_back(i == 1 ? mirror() : pinhole(8 + i));
    T.push_back(pose(i + 1));
    e->ids.push_back(cams[i]->getId());
    e->cams.push_back(cams[i].get());
    e->x.push_back(i + 1);
  }
  NCameraId id;
  generateId(&id);
  NCamera::Ptr rig = aligned_shared<NCamera>(id, T, cams, "rig");
  remember(e->ids);
  return rig;
}
static void histories() {
  const int n = (int)symx_choose("cameras", 1, symx_param("max", 3)), steps = (int)symx_param("steps", 2);
  CameraId foreign;
  generateId(&foreign);
  known.push_back(foreign);
  Expected e;
  NCamera::Ptr rig = makeRig(n, &e);
  consistent(*rig, e);
  for (int s = 0; s < steps; s++) {
    const int op = (int)symx_choose("op", 0, 5);
    if (op == 0) {
      const size_t i = symx_choose("index", 0, n);
      Camera::Ptr c = pinhole(20 + s);
      const int r = symx_try([&] { rig->setCamera(i, c); });
      SYMX_ASSERT((r != 0) == (i >= (size_t)n), "an index beyond the rig is refused");
      if (r == 0) {
        e.ids[i] = c->getId();
        e.cams[i] = c.get();
        known.push_back(c->getId());
      }
      symx_reach("replaced");
    } else if (op == 1) {
      const size_t i = symx_choose("index", 0, n);
      const int r = symx_try([&] { rig->set_T_C_B(i, pose(50 + s)); });
      SYMX_ASSERT((r != 0) == (i >= (size_t)n), "an index beyond the rig is refused");
      if (r == 0) e.x[i] = 50 + s;
      symx_reach("posed");
    } else {
      NCamera::Ptr old = rig;
      Expected oe = e;
      if (op == 2) rig.reset(old->clone());
      else if (op == 3) rig = old->cloneToShared();
      else if (op == 4) rig.reset(old->cloneWithNewIds());
      else rig = old->cloneRigWithoutDistortion();
      SYMX_ASSERT(rig->getNumCameras() == (size_t)n, "a copy has as many cameras");
      for (int i = 0; i < n; i++) {
        SYMX_ASSERT(&rig->getCamera(i) != &old->getCamera(i), "a copy has cameras of its own");
        SYMX_ASSERT(rig->getCamera(i).getType() == old->getCamera(i).getType() && rig->getCamera(i).getParameters() == old->getCamera(i).getParameters(), "a copy has the same cameras");
        if (op == 5) SYMX_ASSERT(!rig->getCamera(i).hasDistortion(), "the copy without distortion has none");
        else SYMX_ASSERT(rig->getCamera(i).getDistortion() == old->getCamera(i).getDistortion(), "a copy has the same distortion");
        e.cams[i] = &rig->getCamera(i);
        if (op >= 4) e.ids[i] = rig->getCameraId(i);
      }
      if (op >= 4) {
        for (int i = 0; i < n; i++) {
          SYMX_ASSERT(e.ids[i].isValid(), "new ids are valid");
          for (const CameraId& k : known) SYMX_ASSERT(!(k == e.ids[i]), "new ids were never used before");
          known.push_back(e.ids[i]);
        }
        SYMX_ASSERT(!(rig->getId() == old->getId()), "new ids were never used before");
        symx_reach("newIds");
      } else {
        SYMX_ASSERT(rig->getId() == old->getId() && *rig == *old, "a copy equals the original");
        symx_reach("copied");
      }
      consistent(*old, oe);
    }
    consistent(*rig, e);
  }
  SYMX_ASSERT(symx_try([&] { rig->getCamera(n); }) != 0 && symx_try([&] { rig->get_T_C_B(n); }) != 0 && symx_try([&] { rig->getCameraId(n); }) != 0 &&
              symx_try([&] { rig->getCameraShared(n); }) != 0 && symx_try([&] { rig->getCameraMutable(n); }) != 0 && symx_try([&] { rig->get_T_C_B_Mutable(n); }) != 0, "an index beyond the rig is refused");
  CameraId none;
  SYMX_ASSERT(symx_try([&] { rig->getCameraIndex(none); }) != 0 && symx_try([&] { rig->hasCameraWithId(none); }) != 0, "an invalid id is refused");
  symx_reach("histories");
}
static void rigEquality() {
  Expected e;
  NCamera::Ptr rig = makeRig(2, &e), o = rig->cloneToShared();
  SYMX_ASSERT(*rig == *o && *o == *rig && !(*rig != *o), "a copy equals the original");
  const int which = (int)symx_choose("which", 0, 5);
  NCameraId id;
  generateId(&id);
  if (which == 0) o->setId(id);
  else if (which == 1) o->getCameraMutable(symx_choose("camera", 0, 1)).setImageWidth(41);
  else if (which == 2) o->set_T_C_B(symx_choose("camera", 0, 1), pose(7));
  else if (which == 3) o->getCameraMutable(symx_choose("camera", 0, 1)).removeDistortion();
  else if (which == 4) o->setCamera(1, pinhole());
  else o.reset(new NCamera(rig->getId(), {pose(1)}, {rig->getCameraShared(0)}, "rig"));
  SYMX_ASSERT(!(*rig == *o) && !(*o == *rig), "rigs that differ are not equal");
  symx_reach("rigEquality");
}
static void badRig() {
  Expected e;
  std::vector<Camera::Ptr> cams;
  TransformationVector T;
  const int n = (int)symx_choose("cameras", 0, 2), k = (int)symx_choose("poses", 0, 2);
  for (int i = 0; i < n; i++) cams.push_back(pinhole());
  for (int i = 0; i < k; i++) T.push_back(pose(i));
  NCameraId id;
  const bool valid = symx_choose("id", 0, 1), null = symx_choose("null", 0, 1);
  if (valid) generateId(&id);
  if (null && n) cams[n - 1].reset();
  const int r = symx_try([&] { NCamera rig(id, T, cams, ""); });
  SYMX_ASSERT((r != 0) == (n != k || !valid || (null && n)), "a rig needs an id and a camera for each pose");
  symx_reach("badRig");
}
static void covariance() {
  Expected e;
  NCamera::Ptr rig = makeRig(1, &e);
  TransformationCovariance c;
  SYMX_ASSERT(!rig->has_T_G_B_fixed_localization_covariance() && !rig->get_T_G_B_fixed_localization_covariance(&c), "no covariance before it is set");
  TransformationCovariance v;
  for (int i = 0; i < 36; i++) v(i) = i + 1;
  const int at = (int)symx_choose("at", 0, 35);
  v(at) = symx_f64("value");
  rig->set_T_G_B_fixed_localization_covariance(v);
  NCamera::Ptr o(rig->clone());
  SYMX_ASSERT(rig->has_T_G_B_fixed_localization_covariance() && rig->get_T_G_B_fixed_localization_covariance(&c), "the covariance that was set");
  for (int i = 0; i < 36; i++) SYMX_ASSERT(reinterpret_cast<uint64_t&>(c(i)) == reinterpret_cast<uint64_t&>(v(i)), "the covariance that was set");
  TransformationCovariance d;
  SYMX_ASSERT(o->get_T_G_B_fixed_localization_covariance(&d), "a copy has the covariance");
  for (int i = 0; i < 36; i++) SYMX_ASSERT(reinterpret_cast<uint64_t&>(d(i)) == reinterpret_cast<uint64_t&>(v(i)), "a copy has the covariance");
  symx_reach("covariance");
}
// ---- a single camera
static void mask() {
  Distortion::UniquePtr d(make(kNull, Eigen::VectorXd()));
  const int w = 3, h = 2;
  PinholeCamera cam(four(1, 1, 1, 1), w, h, d);
  double x = symx_f64("x"), y = symx_f64("y");
  symx_assume((std::abs(x) <= 1e6) & (std::abs(y) <= 1e6));
  V2 k(x, y);
  const bool outside = !((x >= 0) & (y >= 0) & (x < w) & (y < h));
  SYMX_ASSERT(!cam.hasMask() && cam.isMasked(k) == outside, "without a mask only what is outside the image is masked");
  uint8_t m[h][w];
  symx_bytes(m, sizeof(m), "m");
  const int rows = (int)symx_choose("rows", h - 1, h + 1), cols = (int)symx_choose("cols", w - 1, w + 1), f = (int)symx_choose("float", 0, 1);
  cv::Mat mat(rows, cols, f ? CV_32FC1 : CV_8UC1);
  if (rows == h && cols == w && !f)
    for (int i = 0; i < h; i++)
      for (int j = 0; j < w; j++) mat.at<uint8_t>(i, j) = m[i][j];
  const int r = symx_try([&] { cam.setMask(mat); });
  SYMX_ASSERT((r != 0) == (rows != h || cols != w || f), "a mask has the size of the image and one byte for each pixel");
  if (r) {
    symx_reach("badMask");
    return;
  }
  bool masked = outside;
  for (int i = 0; i < h; i++)
    for (int j = 0; j < w; j++) masked |= ((x >= j) & (x < j + 1) & (y >= i) & (y < i + 1)) && m[i][j] == 0;
  SYMX_ASSERT(cam.hasMask() && cam.isMasked(k) == masked, "masked are the zero pixels of the mask and everything outside");
  // a copy keeps its own mask
  std::unique_ptr<Camera> o(cam.clone());
  for (int i = 0; i < h; i++)
    for (int j = 0; j < w; j++) mat.at<uint8_t>(i, j) = 0;
  SYMX_ASSERT(o->hasMask() && o->isMasked(k) == masked, "a copy has a mask of its own");
  cam.clearMask();
  SYMX_ASSERT(!cam.hasMask() && cam.isMasked(k) == outside, "a mask can be removed");
  symx_reach("mask");
}
static void shutter() {
  Camera::Ptr c = pinhole();
  SYMX_ASSERT(c->getLineDelayNanoSeconds() == 0 && c->getNumberOfLines() == 1 && c->maxRollingShutterDelayNanoSeconds() == 0, "a camera takes the whole image at once unless told otherwise");
  uint64_t delay = symx_u64("delay");
  symx_assume(delay <= 1000000000);
  uint32_t h = (uint32_t)symx_range("height", 0, 100000);
  double y = symx_f64("y");
  symx_assume((y >= -1e6) & (y <= 1e6));
  c->setLineDelayNanoSeconds(delay);
  c->setImageHeight(h);
  int64_t line = (int64_t)y;
  SYMX_ASSERT(c->rollingShutterDelayNanoSeconds(V2(7, y)) == line * (int64_t)delay, "a keypoint is delayed by its row");
  SYMX_ASSERT(c->maxRollingShutterDelayNanoSeconds() == (int64_t)h * (int64_t)delay, "the longest delay is that of all rows");
  SYMX_ASSERT(c->getNumberOfLines() == (delay > 0 ? h : 1), "number of lines");
  symx_reach("shutter");
}
static void cameraEquality() {
  const bool uni = symx_choose("unified", 0, 1);
  Camera::Ptr a = uni ? mirror(kRadTan) : pinhole(), b(a->clone());
  a->setCompressedImages(symx_bool("compressed"));
  a->setLineDelayNanoSeconds(symx_u64("delay"));
  a->setImageWidth(symx_u32("width"));
  a->setImageHeight(symx_u32("height"));
  b.reset(a->clone());
  SYMX_ASSERT(*a == *b && *b == *a && !(*a != *b), "a copy equals the original");
  const int which = (int)symx_choose("which", 0, 9);
  CameraId id;
  generateId(&id);
  if (which == 0) b->setId(id);
  else if (which == 1) {
    uint64_t v = symx_u64("delay2");
    symx_assume(v != a->getLineDelayNanoSeconds());
    b->setLineDelayNanoSeconds(v);
  } else if (which == 2) {
    uint32_t v = symx_u32("size2");
    symx_assume(v != a->imageWidth());
    b->setImageWidth(v);
  } else if (which == 3) {
    uint32_t v = symx_u32("size2");
    symx_assume(v != a->imageHeight());
    b->setImageHeight(v);
  } else if (which == 4) b->setCompressedImages(!a->hasCompressedImages());
  else if (which == 5) b->getParametersMutable()[symx_choose("intrinsic", 0, a->getParameterSize() - 1)] += 0.5;
  else if (which == 6) {
    double v = symx_f64("k");
    int i = (int)symx_choose("coefficient", 0, 3);
    symx_assume((v != a->getDistortion().getParameters()(i)) & (v == v));
    b->getDistortionMutable()->getParametersMutable()[i] = v;
  } else if (which == 7) b->removeDistortion();
  else if (which == 8) {
    Distortion::UniquePtr d(make(kEqui, otherCoeffs(kEqui)));
    b->setDistortion(d);
  } else {
    CameraId aid = a->getId();
    b = uni ? pinhole() : mirror(kRadTan);
    b->setId(aid);
  }
  SYMX_ASSERT(!(*a == *b) && !(*b == *a) && *a != *b, "cameras that differ are not equal");
  if (which < 9) SYMX_ASSERT(a->getDistortion().getType() == Distortion::Type::kRadTan && a->getDistortion().getParameters() == otherCoeffs(kRadTan), "changing a copy leaves the original alone");
  symx_reach("cameraEquality");
}
static void valid() {
  const bool uni = symx_choose("unified", 0, 1);
  const int n = (int)symx_choose("n", 0, 6), want = uni ? 5 : 4;
  Eigen::VectorXd v(n);
  bool ok = n == want;
  for (int i = 0; i < n; i++) {
    v(i) = symx_f64("v");
    if (n == want) ok = ok & (uni && i == 0 ? v(i) >= 0 : v(i) > 0);
  }
  SYMX_ASSERT((uni ? UnifiedProjectionCamera::areParametersValid(v) : PinholeCamera::areParametersValid(v)) == ok, "as many parameters as the model has, positive (the mirror parameter may be 0)");
  Camera::Ptr c = uni ? mirror() : pinhole();
  SYMX_ASSERT(c->intrinsicsValid(v) == ok && c->getParameterSize() == want, "as many parameters as the model has, positive (the mirror parameter may be 0)");
  const int r = symx_try([&] {
    if (uni) UnifiedProjectionCamera x(v, 5, 6);
    else PinholeCamera x(v, 5, 6);
  });
  SYMX_ASSERT((r == 0) == ok, "a camera with invalid parameters cannot be made");
  const int s = symx_try([&] { c->setParameters(v); });
  SYMX_ASSERT((s == 0) == (n == want), "parameters of another number are refused");
  if (s == 0) {
    SYMX_ASSERT(c->isValid() == ok, "a camera is valid if its parameters are");
    for (int i = 0; i < n; i++) SYMX_ASSERT(reinterpret_cast<const uint64_t&>(c->getParameters()(i)) == reinterpret_cast<uint64_t&>(v(i)), "the parameters that were set");
    const int o = uni;
    const double fu = uni ? static_cast<UnifiedProjectionCamera&>(*c).fu() : static_cast<PinholeCamera&>(*c).fu();
    const double cv = uni ? static_cast<UnifiedProjectionCamera&>(*c).cv() : static_cast<PinholeCamera&>(*c).cv();
    Eigen::Matrix3d K = uni ? static_cast<UnifiedProjectionCamera&>(*c).getCameraMatrix() : static_cast<PinholeCamera&>(*c).getCameraMatrix();
    if (ok) {
      SYMX_ASSERT((fu == v(o)) & (cv == v(o + 3)), "the parameters by name");
      SYMX_ASSERT((K(0, 0) == v(o)) & (K(1, 1) == v(o + 1)) & (K(0, 2) == v(o + 2)) & (K(1, 2) == v(o + 3)) & (K(2, 2) == 1) & (K(0, 1) == 0) & (K(1, 0) == 0) & (K(2, 0) == 0) & (K(2, 1) == 0), "the camera matrix");
    }
  }
  symx_reach("valid");
}
static void factory() {
  const int t = (int)symx_choose("camera", 0, 2), m = (int)symx_choose("model", 0, 3), nc = (int)symx_choose("coefficients", 0, 4), ni = (int)symx_choose("intrinsics", 3, 5);
  CameraId id;
  const bool has = symx_choose("id", 0, 1);
  if (has) generateId(&id);
  static const Distortion::Type types[4] = {Distortion::Type::kNoDistortion, Distortion::Type::kRadTan, Distortion::Type::kEquidistant, Distortion::Type::kFisheye};
  Eigen::VectorXd c(nc), in(ni);
  for (int i = 0; i < nc; i++) c(i) = 0.75;
  for (int i = 0; i < ni; i++) in(i) = i + 1;
  Camera::Ptr cam;
  const int r = symx_try([&] { cam = createCamera(id, in, 40, 30, c, (Camera::Type)t, types[m]); });
  const bool ok = has && t != 2 && ni == (t == 0 ? 4 : 5) && (m == kNull || nc == numCoeffs(m));
  SYMX_ASSERT((r == 0) == ok, "a camera is made exactly from valid parameters of its models");
  if (!ok) {
    symx_reach("factoryRefused");
    return;
  }
  SYMX_ASSERT(cam->getId() == id && cam->getType() == (Camera::Type)t && cam->imageWidth() == 40 && cam->imageHeight() == 30 && cam->getParameters() == in, "a camera is made from its parameters");
  SYMX_ASSERT(cam->getDistortion().getType() == types[m] && (m == kNull || cam->getDistortion().getParameters() == c) && cam->hasDistortion() == (m != kNull), "a camera is made with its distortion");
  SYMX_ASSERT(t == 0 ? dynamic_cast<PinholeCamera*>(cam.get()) != nullptr : dynamic_cast<UnifiedProjectionCamera*>(cam.get()) != nullptr, "a camera of the model asked for");
  symx_reach("factory");
}
extern "C" void symx_main() {
  symx_clock_fixed = 1000000000;
  switch (symx_param("case", 0)) {
    case 0: histories(); break;
    case 1: rigEquality(); break;
    case 2: badRig(); break;
    case 3: covariance(); break;
    case 4: mask(); break;
    case 5: shutter(); break;
    case 6: cameraEquality(); break;
    case 7: valid(); break;
    case 8: factory(); break;
  }
}
