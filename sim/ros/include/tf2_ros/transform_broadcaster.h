#pragma once
#include <rclcpp/rclcpp.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
namespace tf2_ros
{
// Publishes on the simulated topic "/tf", one message per transform.
class TransformBroadcaster
{
protected:
  rclcpp::Publisher<geometry_msgs::msg::TransformStamped>::SharedPtr publisher;
  template <typename Node>
  static auto make(Node && n, const char * topic)
  {
    if constexpr (std::is_pointer_v<std::decay_t<Node>>) return n->template create_publisher<geometry_msgs::msg::TransformStamped>(topic, rclcpp::QoS(100));
    else if constexpr (std::is_base_of_v<rclcpp::Node, std::decay_t<Node>>) return n.template create_publisher<geometry_msgs::msg::TransformStamped>(topic, rclcpp::QoS(100));
    else return n->template create_publisher<geometry_msgs::msg::TransformStamped>(topic, rclcpp::QoS(100));
  }
public:
  SIMROS_PTRS(TransformBroadcaster)
  template <typename Node> explicit TransformBroadcaster(Node && n, const char * topic = "/tf") : publisher(make(n, topic)) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t) { publisher->publish(t); }
  void sendTransform(const std::vector<geometry_msgs::msg::TransformStamped> & v) { for (auto & t : v) publisher->publish(t); }
};
}
