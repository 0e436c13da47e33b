// Stand-in for minkindr (not available here): unit quaternions with the
// operations the repository uses, by their definitions.
#pragma once
#include <cmath>
#include <iosfwd>
#include <ostream>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include "position.h"
namespace kindr { namespace minimal {
template <class S> class AngleAxisTemplate {
 public:
  typedef Eigen::Matrix<S, 3, 1> Vector3;
  AngleAxisTemplate() : angle_(0), axis_(S(1), S(0), S(0)) {}
  AngleAxisTemplate(S angle, const Vector3& axis) : angle_(angle), axis_(axis) {}
  S angle() const { return angle_; }
  const Vector3& axis() const { return axis_; }
 private:
  S angle_; Vector3 axis_;
};
typedef AngleAxisTemplate<double> AngleAxis;
template <class S> class RotationQuaternionTemplate {
 public:
  typedef Eigen::Matrix<S, 3, 1> Vector3; typedef Vector3 Imaginary;
  typedef Eigen::Matrix<S, 3, 3> RotationMatrix;
  typedef Eigen::Quaternion<S> Implementation;
  typedef S Scalar;
  RotationQuaternionTemplate() : q_(Implementation::Identity()) {}
  RotationQuaternionTemplate(S w, S x, S y, S z) : q_(w, x, y, z) {}
  explicit RotationQuaternionTemplate(const Implementation& q) : q_(q) {}
  explicit RotationQuaternionTemplate(const RotationMatrix& r) : q_(r) {}
  S w() const { return q_.w(); } S x() const { return q_.x(); } S y() const { return q_.y(); } S z() const { return q_.z(); }
  Imaginary imaginary() const { return Imaginary(q_.x(), q_.y(), q_.z()); }
  const Implementation& toImplementation() const { return q_; }
  Implementation& toImplementation() { return q_; }
  void setIdentity() { q_.setIdentity(); }
  RotationQuaternionTemplate inverse() const { return RotationQuaternionTemplate(q_.w(), -q_.x(), -q_.y(), -q_.z()); }
  RotationQuaternionTemplate operator*(const RotationQuaternionTemplate& o) const { return RotationQuaternionTemplate(q_ * o.q_); }
  Vector3 rotate(const Vector3& v) const { return getRotationMatrix() * v; }
  Vector3 inverseRotate(const Vector3& v) const { return getRotationMatrix().transpose() * v; }
  RotationMatrix getRotationMatrix() const { return q_.toRotationMatrix(); }
  Eigen::Matrix<S, 4, 1> vector() const { return Eigen::Matrix<S, 4, 1>(q_.w(), q_.x(), q_.y(), q_.z()); }
  Eigen::Matrix<S, 3, Eigen::Dynamic> rotateVectorized(const Eigen::Matrix<S, 3, Eigen::Dynamic>& v) const { return getRotationMatrix() * v; }
  S norm() const { return q_.norm(); }
  static Vector3 log(const RotationQuaternionTemplate& q) {
    const Vector3 a = q.imaginary(); const S na = a.norm(), w = q.w();
    if (na < S(1e-12)) return a * S(2);
    return a * (S(2) * std::atan2(na, w) / na);
  }
  Vector3 log() const { return log(*this); }
 private:
  Implementation q_;
};
typedef RotationQuaternionTemplate<double> RotationQuaternion;
template <class S> std::ostream& operator<<(std::ostream& o, const RotationQuaternionTemplate<S>&) { return o; }
} }
