// What the LiDAR simulation uses of Embree 4: triangle scenes and single rays, by trying every triangle.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <limits>
#include <map>
#include <memory>
#include <vector>
#define RTC_INVALID_GEOMETRY_ID (static_cast<unsigned int>(-1))
enum RTCGeometryType { RTC_GEOMETRY_TYPE_TRIANGLE = 0 };
enum RTCBufferType { RTC_BUFFER_TYPE_INDEX = 0, RTC_BUFFER_TYPE_VERTEX = 1 };
enum RTCFormat { RTC_FORMAT_UINT3 = 0x5003, RTC_FORMAT_FLOAT3 = 0x9003 };
struct RTCDeviceTy {};
struct RTCGeometryTy
{
  std::vector<std::array<float, 3>> vertices;
  std::vector<std::array<unsigned, 3>> triangles;
  unsigned mask = 1;
  bool committed = false;
};
struct RTCSceneTy
{
  std::map<unsigned, std::shared_ptr<RTCGeometryTy>> attached, committed;
};
using RTCDevice = RTCDeviceTy *;
using RTCScene = RTCSceneTy *;
using RTCGeometry = std::shared_ptr<RTCGeometryTy> *;
struct RTCRay { float org_x, org_y, org_z, tnear, dir_x, dir_y, dir_z, time, tfar; unsigned mask, id, flags; };
struct RTCHit { float Ng_x, Ng_y, Ng_z, u, v; unsigned primID, geomID, instID[1]; };
struct RTCRayHit { RTCRay ray; RTCHit hit; };
inline RTCDevice rtcNewDevice(const char *) { return new RTCDeviceTy; }
inline void rtcReleaseDevice(RTCDevice d) { delete d; }
inline RTCScene rtcNewScene(RTCDevice) { return new RTCSceneTy; }
inline void rtcReleaseScene(RTCScene s) { delete s; }
inline void rtcCommitScene(RTCScene s) { s->committed = s->attached; }
inline RTCGeometry rtcNewGeometry(RTCDevice, RTCGeometryType) { return new std::shared_ptr<RTCGeometryTy>(std::make_shared<RTCGeometryTy>()); }
inline void rtcReleaseGeometry(RTCGeometry g) { delete g; }
inline void rtcCommitGeometry(RTCGeometry g) { (*g)->committed = true; }
inline void rtcSetGeometryMask(RTCGeometry g, unsigned m) { (*g)->mask = m; }
inline void * rtcSetNewGeometryBuffer(RTCGeometry g, RTCBufferType type, unsigned, RTCFormat, std::size_t, std::size_t n)
{
  if (type == RTC_BUFFER_TYPE_VERTEX) { (*g)->vertices.assign(n, {}); return (*g)->vertices.data(); }
  (*g)->triangles.assign(n, {});
  return (*g)->triangles.data();
}
inline unsigned rtcAttachGeometry(RTCScene s, RTCGeometry g)
{
  unsigned id = 0;
  while (s->attached.count(id)) ++id;
  s->attached[id] = *g;
  return id;
}
inline void rtcDetachGeometry(RTCScene s, unsigned id) { s->attached.erase(id); }
inline void rtcIntersect1(RTCScene s, RTCRayHit * h, void * = nullptr)
{
  auto & r = h->ray;
  const double o[3] = {r.org_x, r.org_y, r.org_z}, d[3] = {r.dir_x, r.dir_y, r.dir_z};
  for (auto & [id, g] : s->committed) {
    if (!(g->mask & r.mask) || !g->committed) continue;
    for (unsigned t = 0; t < g->triangles.size(); ++t) {
      double e1[3], e2[3], tv[3];
      const auto &a = g->vertices[g->triangles[t][0]], &b = g->vertices[g->triangles[t][1]], &c = g->vertices[g->triangles[t][2]];
      for (int i = 0; i < 3; ++i) { e1[i] = double(b[i]) - a[i]; e2[i] = double(c[i]) - a[i]; tv[i] = o[i] - a[i]; }
      const double p[3] = {d[1] * e2[2] - d[2] * e2[1], d[2] * e2[0] - d[0] * e2[2], d[0] * e2[1] - d[1] * e2[0]};
      const double det = e1[0] * p[0] + e1[1] * p[1] + e1[2] * p[2];
      if (std::abs(det) < 1e-12) continue;
      const double u = (tv[0] * p[0] + tv[1] * p[1] + tv[2] * p[2]) / det;
      if (u < 0 || u > 1) continue;
      const double q[3] = {tv[1] * e1[2] - tv[2] * e1[1], tv[2] * e1[0] - tv[0] * e1[2], tv[0] * e1[1] - tv[1] * e1[0]};
      const double v = (d[0] * q[0] + d[1] * q[1] + d[2] * q[2]) / det;
      if (v < 0 || u + v > 1) continue;
      const double at = (e2[0] * q[0] + e2[1] * q[1] + e2[2] * q[2]) / det;
      if (at < r.tnear || at > r.tfar) continue;
      r.tfar = static_cast<float>(at);
      h->hit.geomID = id;
      h->hit.primID = t;
    }
  }
}
