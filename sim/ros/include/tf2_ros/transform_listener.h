#pragma once
#include <tf2_ros/buffer.h>
namespace tf2_ros
{
struct TransformListener { template <typename... Ts> explicit TransformListener(Ts &&...) {} };
}
