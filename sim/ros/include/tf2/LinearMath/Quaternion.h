// Minimal tf2 linear algebra (public formulas; stand-in, not part of the code under test).
#pragma once
#include <cmath>
namespace tf2
{
using tf2Scalar = double;
struct Vector3
{
  double v[3] = {0, 0, 0};
  Vector3() = default;
  Vector3(double x, double y, double z) : v{x, y, z} {}
  double x() const { return v[0]; } double y() const { return v[1]; } double z() const { return v[2]; }
  double getX() const { return v[0]; } double getY() const { return v[1]; } double getZ() const { return v[2]; }
  void setX(double a) { v[0] = a; } void setY(double a) { v[1] = a; } void setZ(double a) { v[2] = a; }
  double & operator[](int i) { return v[i]; } double operator[](int i) const { return v[i]; }
  Vector3 operator+(const Vector3 & o) const { return {v[0] + o.v[0], v[1] + o.v[1], v[2] + o.v[2]}; }
  Vector3 operator-(const Vector3 & o) const { return {v[0] - o.v[0], v[1] - o.v[1], v[2] - o.v[2]}; }
  Vector3 operator-() const { return {-v[0], -v[1], -v[2]}; }
  Vector3 operator*(double k) const { return {v[0] * k, v[1] * k, v[2] * k}; }
  double dot(const Vector3 & o) const { return v[0] * o.v[0] + v[1] * o.v[1] + v[2] * o.v[2]; }
  Vector3 cross(const Vector3 & o) const { return {v[1] * o.v[2] - v[2] * o.v[1], v[2] * o.v[0] - v[0] * o.v[2], v[0] * o.v[1] - v[1] * o.v[0]}; }
  double length2() const { return dot(*this); } double length() const { return std::sqrt(length2()); }
  Vector3 & normalize() { double l = length(); v[0] /= l; v[1] /= l; v[2] /= l; return *this; }
};
inline Vector3 operator*(double k, const Vector3 & v) { return v * k; }
struct Quaternion
{
  double q[4] = {0, 0, 0, 1};
  Quaternion() = default;
  Quaternion(double x, double y, double z, double w) : q{x, y, z, w} {}
  Quaternion(const Vector3 & axis, double angle) { setRotation(axis, angle); }
  double x() const { return q[0]; } double y() const { return q[1]; } double z() const { return q[2]; } double w() const { return q[3]; }
  double getX() const { return q[0]; } double getY() const { return q[1]; } double getZ() const { return q[2]; } double getW() const { return q[3]; }
  void setValue(double a, double b, double c, double d) { q[0] = a; q[1] = b; q[2] = c; q[3] = d; }
  void setRotation(const Vector3 & axis, double angle) { double s = std::sin(angle * 0.5) / axis.length(); setValue(axis.x() * s, axis.y() * s, axis.z() * s, std::cos(angle * 0.5)); }
  void setRPY(double roll, double pitch, double yaw)
  {
    double hy = yaw * 0.5, hp = pitch * 0.5, hr = roll * 0.5;
    double cy = std::cos(hy), sy = std::sin(hy), cp = std::cos(hp), sp = std::sin(hp), cr = std::cos(hr), sr = std::sin(hr);
    setValue(sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, cr * cp * cy + sr * sp * sy);
  }
  double length2() const { return q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]; }
  double length() const { return std::sqrt(length2()); }
  Quaternion & normalize() { double l = length(); for (auto & a : q) a /= l; return *this; }
  Quaternion normalized() const { auto r = *this; return r.normalize(); }
  Quaternion inverse() const { return {-q[0], -q[1], -q[2], q[3]}; }
  double getAngle() const { return 2 * std::acos(q[3]); }
  Quaternion operator*(const Quaternion & b) const
  {
    return {q[3] * b.q[0] + q[0] * b.q[3] + q[1] * b.q[2] - q[2] * b.q[1], q[3] * b.q[1] + q[1] * b.q[3] + q[2] * b.q[0] - q[0] * b.q[2],
            q[3] * b.q[2] + q[2] * b.q[3] + q[0] * b.q[1] - q[1] * b.q[0], q[3] * b.q[3] - q[0] * b.q[0] - q[1] * b.q[1] - q[2] * b.q[2]};
  }
  static Quaternion getIdentity() { return {}; }
};
inline Vector3 quatRotate(const Quaternion & r, const Vector3 & v)
{
  Quaternion p(v.x(), v.y(), v.z(), 0), a = r * p * r.inverse();
  return {a.x(), a.y(), a.z()};
}
}  // namespace tf2
