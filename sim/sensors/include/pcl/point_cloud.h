// What the LiDAR simulation uses of PCL.
#pragma once
#include <cstdint>
#include <memory>
#include <vector>
namespace pcl
{
struct PointXYZI { float x = 0, y = 0, z = 0, intensity = 0; };
template <typename P> struct PointCloud
{
  using Ptr = std::shared_ptr<PointCloud>;
  using ConstPtr = std::shared_ptr<const PointCloud>;
  std::vector<P> points;
  std::uint32_t width = 0, height = 0;
  bool is_dense = true;
  std::size_t size() const { return points.size(); }
  bool empty() const { return points.empty(); }
  void resize_width() { width = static_cast<std::uint32_t>(points.size()); height = 1; }
  template <typename... A> P & emplace_back(A &&... a) { points.push_back(P(a...)); resize_width(); return points.back(); }
  void push_back(const P & p) { points.push_back(p); resize_width(); }
  void clear() { points.clear(); width = height = 0; }
  void resize(std::size_t n) { points.resize(n); resize_width(); }
  P & operator[](std::size_t i) { return points[i]; }
  const P & operator[](std::size_t i) const { return points[i]; }
  P & at(std::size_t i) { return points.at(i); }
  auto begin() { return points.begin(); }
  auto end() { return points.end(); }
  auto begin() const { return points.begin(); }
  auto end() const { return points.end(); }
};
}  // namespace pcl
