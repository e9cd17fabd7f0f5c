#pragma once
#include <tf2/LinearMath/Matrix3x3.h>
namespace tf2
{
struct Transform
{
  Quaternion r; Vector3 o;
  Transform() = default;
  Transform(const Quaternion & q, const Vector3 & v = {}) : r(q), o(v) {}
  void setOrigin(const Vector3 & v) { o = v; }
  void setRotation(const Quaternion & q) { r = q; }
  Vector3 getOrigin() const { return o; }
  Quaternion getRotation() const { return r; }
  Vector3 operator*(const Vector3 & v) const { return quatRotate(r, v) + o; }
  Transform operator*(const Transform & t) const { return {r * t.r, (*this) * t.o}; }
  Transform inverse() const { auto i = r.inverse(); return {i, quatRotate(i, -o)}; }
};
}  // namespace tf2
