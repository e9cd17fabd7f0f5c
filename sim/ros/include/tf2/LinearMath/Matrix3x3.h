#pragma once
#include <tf2/LinearMath/Quaternion.h>
namespace tf2
{
struct Matrix3x3
{
  double m[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  Matrix3x3() = default;
  explicit Matrix3x3(const Quaternion & q) { setRotation(q); }
  void setRotation(const Quaternion & q)
  {
    double s = 2.0 / q.length2(), xs = q.x() * s, ys = q.y() * s, zs = q.z() * s, wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs;
    double xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs, yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    double r[3][3] = {{1 - (yy + zz), xy - wz, xz + wy}, {xy + wz, 1 - (xx + zz), yz - wx}, {xz - wy, yz + wx, 1 - (xx + yy)}};
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = r[i][j];
  }
  void getRPY(double & roll, double & pitch, double & yaw) const
  {
    if (std::fabs(m[2][0]) >= 1) {
      double d = std::atan2(m[2][1], m[2][2]);
      yaw = 0;
      pitch = m[2][0] < 0 ? M_PI / 2 : -M_PI / 2;
      roll = d;
    } else {
      pitch = -std::asin(m[2][0]);
      roll = std::atan2(m[2][1] / std::cos(pitch), m[2][2] / std::cos(pitch));
      yaw = std::atan2(m[1][0] / std::cos(pitch), m[0][0] / std::cos(pitch));
    }
  }
  Vector3 operator*(const Vector3 & v) const { Vector3 r; for (int i = 0; i < 3; ++i) r[i] = m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2]; return r; }
};
}  // namespace tf2
