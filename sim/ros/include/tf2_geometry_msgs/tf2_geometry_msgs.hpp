#pragma once
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/pose_stamped.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <tf2/LinearMath/Transform.h>
namespace tf2
{
inline void fromMsg(const geometry_msgs::msg::Quaternion & m, Quaternion & q) { q = Quaternion(m.x, m.y, m.z, m.w); }
inline void fromMsg(const geometry_msgs::msg::Point & m, Vector3 & v) { v = Vector3(m.x, m.y, m.z); }
inline void fromMsg(const geometry_msgs::msg::Vector3 & m, Vector3 & v) { v = Vector3(m.x, m.y, m.z); }
inline void fromMsg(const geometry_msgs::msg::Pose & m, Transform & t) { Quaternion q; fromMsg(m.orientation, q); t = Transform(q, Vector3(m.position.x, m.position.y, m.position.z)); }
inline void fromMsg(const geometry_msgs::msg::Transform & m, Transform & t) { Quaternion q; fromMsg(m.rotation, q); t = Transform(q, Vector3(m.translation.x, m.translation.y, m.translation.z)); }
inline geometry_msgs::msg::Quaternion toMsg(const Quaternion & q) { geometry_msgs::msg::Quaternion m; m.x = q.x(); m.y = q.y(); m.z = q.z(); m.w = q.w(); return m; }
inline geometry_msgs::msg::Vector3 toMsg(const Vector3 & v) { geometry_msgs::msg::Vector3 m; m.x = v.x(); m.y = v.y(); m.z = v.z(); return m; }
inline void toMsg(const Transform & t, geometry_msgs::msg::Pose & m) { m.position.x = t.o.x(); m.position.y = t.o.y(); m.position.z = t.o.z(); m.orientation = toMsg(t.r); }
}  // namespace tf2
