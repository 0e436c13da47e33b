// Stand-in for minkindr (not available here): rigid transformations with the
// operations the repository uses, by their definitions.
#pragma once
#include <ostream>
#include "rotation-quaternion.h"
namespace kindr { namespace minimal {
template <class S> class QuatTransformationTemplate {
 public:
  typedef RotationQuaternionTemplate<S> Rotation; typedef PositionTemplate<S> Position;
  typedef Eigen::Matrix<S, 4, 4> TransformationMatrix; typedef Eigen::Matrix<S, 3, 3> RotationMatrix; typedef Eigen::Matrix<S, 3, 1> Vector3;
  typedef Eigen::Matrix<S, 6, 1> Vector6;
  typedef Eigen::Matrix<S, 3, Eigen::Dynamic> Matrix3X;
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  QuatTransformationTemplate() : p_(Position::Zero()) {}
  QuatTransformationTemplate(const Rotation& q, const Position& p) : q_(q), p_(p) {}
  QuatTransformationTemplate(const Position& p, const Rotation& q) : q_(q), p_(p) {}
  explicit QuatTransformationTemplate(const TransformationMatrix& m) : q_(RotationMatrix(m.template topLeftCorner<3, 3>())), p_(m.template topRightCorner<3, 1>()) {}
  void setIdentity() { q_.setIdentity(); p_.setZero(); }
  const Rotation& getRotation() const { return q_; }
  Rotation& getRotation() { return q_; }
  const Position& getPosition() const { return p_; }
  Position& getPosition() { return p_; }
  const Eigen::Quaternion<S>& getEigenQuaternion() const { return q_.toImplementation(); }
  RotationMatrix getRotationMatrix() const { return q_.getRotationMatrix(); }
  TransformationMatrix getTransformationMatrix() const {
    TransformationMatrix m = TransformationMatrix::Identity();
    m.template topLeftCorner<3, 3>() = getRotationMatrix(); m.template topRightCorner<3, 1>() = p_;
    return m;
  }
  QuatTransformationTemplate inverse() const { return QuatTransformationTemplate(q_.inverse(), -q_.inverseRotate(p_)); }
  QuatTransformationTemplate operator*(const QuatTransformationTemplate& o) const { return QuatTransformationTemplate(q_ * o.q_, p_ + q_.rotate(o.p_)); }
  Vector3 operator*(const Vector3& v) const { return transform(v); }
  Vector3 transform(const Vector3& v) const { return q_.rotate(v) + p_; }
  Matrix3X transformVectorized(const Matrix3X& v) const { return (getRotationMatrix() * v).colwise() + p_; }
  Vector3 inverseTransform(const Vector3& v) const { return q_.inverseRotate(v - p_); }
 private:
  Rotation q_; Position p_;
};
typedef QuatTransformationTemplate<double> QuatTransformation;
template <class S> std::ostream& operator<<(std::ostream& o, const QuatTransformationTemplate<S>&) { return o; }
} }
