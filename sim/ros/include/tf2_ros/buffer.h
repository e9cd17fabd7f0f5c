#pragma once
#include <rclcpp/rclcpp.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
namespace tf2_ros
{
struct Buffer { template <typename... Ts> explicit Buffer(Ts &&...) {} };
}
