#pragma once
#include <tf2_ros/transform_broadcaster.h>
namespace tf2_ros
{
struct StaticTransformBroadcaster : TransformBroadcaster { template <typename Node> explicit StaticTransformBroadcaster(Node && n) : TransformBroadcaster(n, "/tf_static") {} };
}
