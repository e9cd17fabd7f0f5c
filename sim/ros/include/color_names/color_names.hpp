#pragma once
#include <std_msgs/msg/color_rgba.hpp>
#include <string>
namespace color_names
{
inline std_msgs::msg::ColorRGBA makeColorMsg(const std::string &, double alpha = 1) { std_msgs::msg::ColorRGBA c; c.a = alpha; return c; }
}
