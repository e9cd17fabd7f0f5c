#pragma once
#include <pcl/point_cloud.h>
#include <sensor_msgs/msg/point_cloud2.hpp>
#include <cstring>
namespace pcl
{
inline void toROSMsg(const PointCloud<PointXYZI> & c, sensor_msgs::msg::PointCloud2 & m)
{
  if (c.width == 0 && c.height == 0) { m.width = static_cast<std::uint32_t>(c.size()); m.height = 1; }
  else { m.width = c.width; m.height = c.height; }
  m.fields.clear();
  for (unsigned i = 0; i < 4; ++i) {
    sensor_msgs::msg::PointField f;
    f.name = i == 0 ? "x" : i == 1 ? "y" : i == 2 ? "z" : "intensity";
    f.offset = i * 4;
    f.datatype = sensor_msgs::msg::PointField::FLOAT32;
    f.count = 1;
    m.fields.push_back(f);
  }
  m.is_bigendian = false;
  m.is_dense = c.is_dense;
  m.point_step = 16;
  m.row_step = 16 * m.width;
  m.data.resize(c.size() * 16);
  for (std::size_t i = 0; i < c.size(); ++i) {
    const float p[4] = {c.points[i].x, c.points[i].y, c.points[i].z, c.points[i].intensity};
    std::memcpy(m.data.data() + i * 16, p, 16);
  }
}
}  // namespace pcl
