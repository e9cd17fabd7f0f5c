// C17: what the sensors show
#include "simulator.hpp"

void motion();   // C18, motion.cpp

namespace
{
const std::string objects_topic = "/perception/object_recognition/detection/objects", truth_topic = "/perception/object_recognition/ground_truth/objects",
                  cloud_topic = "/perception/obstacle_segmentation/pointcloud", grid_topic = "/perception/occupancy_grid_map/map", imu_topic = "/sensing/imu/imu_data",
                  lights_topic = "/perception/traffic_light_recognition/internal/traffic_signals";


// ---------------------------------------------------------------- what a run does
struct Thing
{
  std::string name;
  int kind = 0;               // 0 vehicle 1 pedestrian 2 misc object
  int subtype = 1;
  V3 center, size, at, velocity;
  double yaw = 0, pitch = 0, turn = 0;
  V3 rotation, accel;
  int from = 0, to = 1 << 30; // frames in which it is there
};
struct Imu { std::string entity, frame; bool gravity; double so, st, sa; int seed; int at; };
struct Lidar { double resolution, duration, delay; std::vector<double> angles; int at; };
struct Detection { double duration, range, delay, truth_delay, stddev, lost; bool all; int seed; int at; };
struct Grid { double duration, resolution, range; unsigned width, height; bool filter; int at; };
struct Plan
{
  double dt, t0;
  i64 ros0;
  int frames, started, ego_gone = 1 << 30;
  std::string ego;
  Thing vehicle;
  std::vector<Thing> things;
  std::vector<Imu> imus;
  std::vector<Lidar> lidars;
  std::vector<Detection> detections;
  std::vector<Grid> grids;
  int detector_at = 1 << 30;
  std::vector<std::optional<std::map<int, std::vector<schema::TrafficLight>>>> lights;
  std::vector<u64> order;
  bool orderly = true;        // ends by removing every entity
  int version = 1;
};
// noise of the detected objects that is configured by parameters: no random part, so it is known exactly
struct Noise
{
  int version = 1;
  std::vector<double> radii, distance, yaw, rate;
  double xd = 1, xy = 1, xr = 1, flip = 0, flip_below = 0.1;
  std::string names = "*";
  std::vector<double> lidar_radii, lidar_shift, lidar_rate;
  bool lidar = false;
  int seed = 1;
  double spread = 0;          // random part; the errors cannot be told then, but they are the same again
};

// what an entity is when a sensor looks
struct Object
{
  std::string name;
  int subtype;
  bool ego, sure = true;
  V3 p, center, size, twist, rotation, accel;
  Q q;
  V3 middle() const { return p + q * center; }
};
int sure_no = 0, maybe = 1, sure_yes = 2;

// ---------------------------------------------------------------- geometry
// where a ray enters a box that is larger by `grow`; nothing if it misses
std::optional<double> enters(const Object & o, const V3 & from, const V3 & direction, double grow, bool & inside)
{
  const V3 a = o.q.conjugate() * (from - o.middle()), d = o.q.conjugate() * direction;
  double lo = -1e18, hi = 1e18;
  for (int i = 0; i < 3; ++i) {
    const double h = o.size[i] / 2 + grow;
    if (h <= 0) return {};
    if (std::abs(d[i]) < 1e-12) { if (std::abs(a[i]) > h) return {}; continue; }
    double x = (-h - a[i]) / d[i], y = (h - a[i]) / d[i];
    if (x > y) std::swap(x, y);
    lo = std::max(lo, x); hi = std::min(hi, y);
  }
  if (lo > hi || hi < 0) return {};
  if (lo < 0) { inside = true; return {}; }
  return lo;
}
// is a point in an entity, or so close that rounding matters? (a LiDAR in there sees nothing of use)
bool at_entity(const V3 & p, const std::vector<Object> & objects)
{
  for (auto & o : objects) if (((o.q.conjugate() * (p - o.middle())).cwiseAbs() - o.size / 2).maxCoeff() < 0.05) return true;
  return false;
}
using Polygon = std::vector<V2>;
double cross(const V2 & a, const V2 & b) { return a.x() * b.y() - a.y() * b.x(); }
Polygon hull(std::vector<V2> p)
{
  std::sort(p.begin(), p.end(), [](auto & a, auto & b) { return std::pair(a.x(), a.y()) < std::pair(b.x(), b.y()); });
  Polygon h(2 * p.size());
  std::size_t k = 0;
  for (std::size_t i = 0; i < p.size(); ++i) { while (k >= 2 && cross(h[k - 1] - h[k - 2], p[i] - h[k - 2]) <= 0) --k; h[k++] = p[i]; }
  for (std::size_t i = p.size() - 1, t = k + 1; i-- > 0;) { while (k >= t && cross(h[k - 1] - h[k - 2], p[i] - h[k - 2]) <= 0) --k; h[k++] = p[i]; }
  h.resize(k > 1 ? k - 1 : k);
  return h;                                                   // counterclockwise
}
Polygon footprint(const Object & o)
{
  std::vector<V2> v;
  for (int i = 0; i < 8; ++i) { const V3 c = o.middle() + o.q * V3((i & 1 ? .5 : -.5) * o.size.x(), (i & 2 ? .5 : -.5) * o.size.y(), (i & 4 ? .5 : -.5) * o.size.z()); v.push_back({c.x(), c.y()}); }
  return hull(v);
}
double segment_distance(const V2 & p, const V2 & a, const V2 & b)
{
  const V2 d = b - a;
  const double t = d.squaredNorm() > 0 ? std::clamp((p - a).dot(d) / d.squaredNorm(), 0.0, 1.0) : 0;
  return (a + t * d - p).norm();
}
// how deep inside (positive) or how far outside (negative)
double depth(const Polygon & h, const V2 & p)
{
  double in = 1e18, out = 1e18;
  for (std::size_t i = 0; i < h.size(); ++i) {
    const V2 & a = h[i], & b = h[(i + 1) % h.size()];
    in = std::min(in, cross(b - a, p - a) / (b - a).norm());
    out = std::min(out, segment_distance(p, a, b));
  }
  return in >= 0 ? in : -out;
}
bool segments_cross(const V2 & a, const V2 & b, const V2 & c, const V2 & d)
{
  const double s = cross(b - a, c - a), t = cross(b - a, d - a), u = cross(d - c, a - c), v = cross(d - c, b - c);
  return ((s > 0) != (t > 0)) && ((u > 0) != (v > 0));
}
double gap(const Polygon & h, const V2 & a, const V2 & b)      // distance between a polygon and a segment
{
  if (depth(h, a) >= 0 || depth(h, b) >= 0) return 0;
  double g = 1e18;
  for (std::size_t i = 0; i < h.size(); ++i) {
    const V2 & c = h[i], & d = h[(i + 1) % h.size()];
    if (segments_cross(a, b, c, d)) return 0;
    g = std::min({g, segment_distance(c, a, b), segment_distance(a, c, d), segment_distance(b, c, d)});
  }
  return g;
}

// ---------------------------------------------------------------- outputs of the current frame
struct Cloud { i64 stamp; std::string frame; std::vector<V3> points; };
struct Seen { i64 stamp; std::string frame; std::vector<autoware_perception_msgs::msg::DetectedObject> objects; };
struct Truth { i64 stamp; std::string frame; std::vector<autoware_perception_msgs::msg::TrackedObject> objects; };
struct Outputs
{
  std::vector<sensor_msgs::msg::Imu> imu;
  std::vector<Cloud> cloud;
  std::vector<Seen> seen;
  std::vector<Truth> truth;
  std::vector<nav_msgs::msg::OccupancyGrid> grid;
  std::vector<std::pair<i64, std::map<int, lights::Bulbs>>> lights;
};
Outputs * out = nullptr;
std::map<std::string, std::string> * uuids = nullptr;
i64 nanoseconds(const builtin_interfaces::msg::Time & t) { return static_cast<i64>(t.sec) * 1'000'000'000 + t.nanosec; }
V3 v3(const geometry_msgs::msg::Point & p) { return {p.x, p.y, p.z}; }
V3 v3(const geometry_msgs::msg::Vector3 & p) { return {p.x, p.y, p.z}; }
Q quat(const geometry_msgs::msg::Quaternion & q) { return Q(q.w, q.x, q.y, q.z); }

void watch(const std::string & architecture)
{
  simros::observe<sensor_msgs::msg::Imu>(imu_topic, [](const auto & m) { out->imu.push_back(m); });
  simros::observe<sensor_msgs::msg::PointCloud2>(cloud_topic, [](const auto & m) {
    Cloud c{nanoseconds(m.header.stamp), m.header.frame_id, {}};
    check(m.data.size() == static_cast<std::size_t>(m.width) * m.height * m.point_step, "cloud-malformed", "the point cloud has " + std::to_string(m.data.size()) + " bytes for " + std::to_string(m.width * m.height) + " points");
    for (std::size_t i = 0; i + m.point_step <= m.data.size(); i += m.point_step) { float f[3]; std::memcpy(f, m.data.data() + i, 12); c.points.push_back({f[0], f[1], f[2]}); }
    out->cloud.push_back(c);
  });
  simros::observe<autoware_perception_msgs::msg::DetectedObjects>(objects_topic, [](const auto & m) { out->seen.push_back({nanoseconds(m.header.stamp), m.header.frame_id, {m.objects.begin(), m.objects.end()}}); });
  simros::observe<autoware_perception_msgs::msg::TrackedObjects>(truth_topic, [](const auto & m) { out->truth.push_back({nanoseconds(m.header.stamp), m.header.frame_id, {m.objects.begin(), m.objects.end()}}); });
  simros::observe<nav_msgs::msg::OccupancyGrid>(grid_topic, [](const auto & m) { out->grid.push_back(m); });
  if (architecture == "awf/universe/20230906") return;
  simros::observe<autoware_perception_msgs::msg::TrafficLightGroupArray>(lights_topic, [](const auto & m) {
    std::map<int, lights::Bulbs> shown;
    for (auto & g : m.traffic_light_groups) {
      auto & b = shown[static_cast<int>(g.traffic_light_group_id)];
      for (auto & e : g.elements) b.insert(lights::message_bulb(e));
    }
    out->lights.push_back({nanoseconds(m.stamp), shown});
  });
}

// ---------------------------------------------------------------- the model of the sensors
struct Model
{
  const Plan & plan;
  const Noise & noise;
  std::map<std::string, Object> world;
  bool ego = false;
  struct Scan { Cloud unused; };
  struct LidarState { double previous; std::vector<std::pair<double, std::pair<i64, std::vector<Object>>>> queue; V3 origin; };
  struct Waiting { double t; std::vector<Object> objects; V3 ego; };
  struct DetectionState { double previous; std::vector<Waiting> seen, truth; std::vector<std::pair<V3, Q>> egos; };
  struct GridState { double previous; };
  std::vector<std::optional<LidarState>> lidars;
  std::vector<std::optional<DetectionState>> detections;
  std::vector<std::optional<GridState>> grids;
  std::vector<bool> imus;
  bool detector = false;
  std::map<int, lights::Bulbs> shown;
  std::string record;                                          // everything random that was published
  u64 points = 0, published = 0, cells = 0;

  Model(const Plan & p, const Noise & n) : plan(p), noise(n), lidars(p.lidars.size()), detections(p.detections.size()), grids(p.grids.size()), imus(p.imus.size()) {}

  static bool due(double elapsed, double duration) { return elapsed - duration >= -1e-4; }

  void check_imu(i64 stamp)
  {
    std::size_t expected = 0;
    for (std::size_t i = 0; i < imus.size(); ++i) {
      auto & c = plan.imus[i];
      std::vector<const sensor_msgs::msg::Imu *> mine;
      for (auto & m : out->imu) if (m.header.frame_id == c.frame) mine.push_back(&m);
      const bool there = imus[i] && world.count(c.entity);
      expected += there;
      check(mine.size() == (there ? 1u : 0u), "imu-count", std::to_string(mine.size()) + " messages of the IMU of " + c.entity + " are published in a frame" + (there ? "" : " though there is no such sensor"));
      if (!there) continue;
      auto & m = *mine[0];
      auto & o = world.at(c.entity);
      check(nanoseconds(m.header.stamp) == stamp, "imu-stamp", "an IMU message is stamped " + std::to_string(nanoseconds(m.header.stamp)) + " in the frame of " + std::to_string(stamp));
      const Q q = quat(m.orientation);
      check(q.angularDistance(o.q) <= 16 * c.so + 1e-4, "imu-orientation", "the orientation of " + c.entity + " is off by " + str(q.angularDistance(o.q)) + " with a standard deviation of " + str(c.so));
      V3 a = o.accel;
      const V3 up = o.q * V3::UnitZ();
      const bool flat = std::hypot(up.x(), up.y()) < 1e-8 && c.so == 0;
      if (c.gravity && flat) a.z() -= 9.81;
      auto within = [&](const V3 & got, const V3 & want, double s, const char * cls, const char * what) {
        check((got - want).cwiseAbs().maxCoeff() <= 9 * s + 1e-6 * (1 + want.norm()), cls, std::string(what) + " of " + c.entity + " is " + text(got) + ", not " + text(want) + " (standard deviation " + str(s) + ")");
      };
      within(v3(m.angular_velocity), o.rotation, c.st, "imu-rotation", "angular velocity");
      if (flat || !c.gravity) within(v3(m.linear_acceleration), a, c.sa, "imu-acceleration", "acceleration");
      for (auto [cov, s] : {std::pair(&m.orientation_covariance, c.so), std::pair(&m.angular_velocity_covariance, c.st), std::pair(&m.linear_acceleration_covariance, c.sa)})
        for (int k = 0; k < 9; ++k) check(close((*cov)[k], k % 4 == 0 ? s * s : 0), "imu-covariance", "the covariance of the IMU of " + c.entity + " is wrong");
      record += text(v3(m.angular_velocity)) + text(v3(m.linear_acceleration)) + str(q.x()) + " " + str(q.z());
      ++published;
    }
    check(out->imu.size() == expected, "imu-count", std::to_string(out->imu.size()) + " IMU messages are published, " + std::to_string(expected) + " are due");
  }

  std::vector<Object> others() const
  {
    std::vector<Object> v;
    for (auto & [n, o] : world) if (n != plan.ego) v.push_back(o);
    return v;
  }
  static std::vector<V3> rays(const Lidar & c)
  {
    std::vector<V3> v;
    for (double yaw = 0; yaw <= 2 * M_PI;) { yaw += c.resolution; for (auto p : c.angles) v.push_back(rpy(0, p, yaw) * V3::UnitX()); }
    return v;
  }
  // can the points of a scan be these? and which entities are seen
  void check_points(const Lidar & c, const Object & ego_then, const std::vector<Object> & objects, const std::vector<V3> * points, std::map<std::string, int> * detected)
  {
    NoInstrument guard;
    if (at_entity(ego_then.p, objects)) {
      if (detected) for (auto & o : objects) (*detected)[o.name] = std::max((*detected)[o.name], maybe);
      return;
    }
    const auto directions = rays(c);
    std::vector<int> hits(directions.size(), 0);
    std::vector<double> got(directions.size(), -1);
    if (points) {
      for (auto & p : *points) {
        std::size_t best = 0;
        double most = -2;
        for (std::size_t i = 0; i < directions.size(); ++i) if (const double d = directions[i].dot(p); d > most) { most = d; best = i; }
        check(p.norm() > 0 && most / p.norm() > 1 - 1e-6, "cloud-direction", "a point at " + text(p) + " lies on no ray of the LiDAR");
        ++hits[best];
        got[best] = p.norm();
        check(hits[best] == 1, "cloud-twice", "two points lie on the same ray");
      }
    }
    for (std::size_t i = 0; i < directions.size(); ++i) {
      const V3 d = ego_then.q * directions[i];
      double lo = 1e18, hi = 1e18;
      bool unclear = false;
      std::vector<std::pair<double, double>> range(objects.size(), {1e18, 1e18});
      for (std::size_t k = 0; k < objects.size(); ++k) {
        const double grow = 2e-3 + 2e-5 * (objects[k].p - ego_then.p).norm();
        if (auto t = enters(objects[k], ego_then.p, d, grow, unclear)) range[k].first = *t;
        if (auto t = enters(objects[k], ego_then.p, d, -grow, unclear)) range[k].second = *t;
        lo = std::min(lo, range[k].first); hi = std::min(hi, range[k].second);
      }
      if (unclear) { if (detected) for (auto & o : objects) (*detected)[o.name] = std::max((*detected)[o.name], maybe); continue; }
      if (points) {
        if (hits[i]) {
          check(lo <= 300.01, "cloud-ghost", "a ray that hits nothing has a point at " + str(got[i]) + " m");
          check(got[i] >= lo - 0.02 && got[i] <= std::min(hi, 1e17) + 0.02, "cloud-range", "a ray that meets an entity between " + str(lo) + " m and " + str(hi) + " m has its point at " + str(got[i]) + " m");
        } else check(hi > 299.9, "cloud-missing", "a ray that hits an entity at " + str(hi) + " m has no point");
      }
      if (detected)
        for (std::size_t k = 0; k < objects.size(); ++k) {
          double other = 1e18;
          for (std::size_t j = 0; j < objects.size(); ++j) if (j != k) other = std::min(other, range[j].first);
          auto & x = (*detected)[objects[k].name];
          if (range[k].second < 299.9 && range[k].second + 0.02 < other) x = sure_yes;
          else if (range[k].first < 300.1 && range[k].first <= hi + 0.02) x = std::max(x, maybe);
        }
    }
  }
  double bin(const std::vector<double> & radii, const std::vector<double> & values, double x, double y, double nx, bool & edge, bool last_holds) const
  {
    const double d = std::hypot(x / nx, y);
    for (std::size_t i = 0; i < radii.size(); ++i) {
      if (std::abs(d - radii[i]) < 1e-3) edge = true;
      if (d < radii[i]) return values[i];
    }
    return last_holds ? values.back() : 0;
  }
  // the points before the noise of the LiDAR; false if that cannot be told
  void lidar(double t, i64 stamp, std::map<std::string, int> & detected)
  {
    std::vector<std::pair<std::size_t, std::pair<i64, std::vector<Object>>>> expected;
    for (std::size_t i = 0; i < lidars.size(); ++i) {
      if (!lidars[i]) continue;
      auto & s = *lidars[i];
      auto & c = plan.lidars[i];
      if (due(t - s.previous, c.duration)) {
        s.previous = t;
        auto all = others();
        std::map<std::string, int> d;
        check_points(c, world.at(plan.ego), all, nullptr, &d);
        for (auto & [n, x] : d) detected[n] = std::max(detected.count(n) ? detected[n] : sure_no, x);
        all.push_back(world.at(plan.ego));
        s.queue.push_back({t, {stamp, all}});
      }
      if (!s.queue.empty() && t - s.queue.front().first >= c.delay) { expected.push_back({i, s.queue.front().second}); s.queue.erase(s.queue.begin()); }
    }
    check(out->cloud.size() == expected.size(), "cloud-count", std::to_string(out->cloud.size()) + " point clouds are published in a frame, " + std::to_string(expected.size()) + " are due");
    for (std::size_t i = 0; i < expected.size(); ++i) {
      auto & m = out->cloud[i];
      auto & e = expected[i].second;
      check(m.stamp == e.first, "cloud-stamp", "a point cloud of the scan of " + std::to_string(e.first) + " is stamped " + std::to_string(m.stamp));
      check(m.frame == "base_link", "cloud-frame", "the point cloud is in frame " + m.frame);
      auto objects = e.second;
      const auto ego_then = objects.back();
      objects.pop_back();
      points += m.points.size();
      published += 1;
      if (!noise.lidar) { check_points(plan.lidars[expected[i].first], ego_then, objects, &m.points, nullptr); continue; }
      if (at_entity(ego_then.p, objects)) continue;
      // the noise moves the points of an entity along their rays by a known length, or removes all of them
      std::vector<V3> back;
      bool unclear = false;
      for (auto & p : m.points) {
        // whose point is it? the one whose box it lies on once it is moved back
        std::optional<V3> undone;
        for (auto & o : objects) {
          bool edge = false;
          const double shift = bin(noise.lidar_radii, noise.lidar_shift, o.p.x() - ego_then.p.x(), o.p.y() - ego_then.p.y(), 1, edge, true);
          if (edge || p.norm() < 1e-3) unclear = true;
          // a close point may be moved to the other side of the LiDAR
          for (double r : {p.norm() - shift, p.norm() + shift}) {
            const V3 q = p * (r / p.norm());
            const V3 local = o.q.conjugate() * (ego_then.p + ego_then.q * q - o.middle());
            const double off = (local.cwiseAbs() - o.size / 2).maxCoeff();
            if (std::abs(off) < 0.02 + 1e-4 * p.norm()) { undone = q; break; }
            if (p.norm() > -shift) break;
          }
        }
        if (unclear) break;
        check(undone.has_value(), "cloud-noise", "a point at " + text(p) + " is on no entity once the configured noise is undone");
        back.push_back(*undone);
      }
      if (unclear) continue;
      std::vector<Object> kept;
      for (auto & o : objects) {
        bool edge = false;
        const double rate = bin(noise.lidar_radii, noise.lidar_rate, o.p.x() - ego_then.p.x(), o.p.y() - ego_then.p.y(), 1, edge, true);
        if (edge) unclear = true;
        if (rate > 0.5) kept.push_back(o);
      }
      if (unclear || kept.size() != objects.size()) {
        // points of the removed entities are gone; the others may be hidden behind them
        for (auto & q : back) {
          bool on = false;
          for (auto & o : kept) { const V3 local = o.q.conjugate() * (ego_then.p + ego_then.q * q - o.middle()); on |= std::abs((local.cwiseAbs() - o.size / 2).maxCoeff()) < 0.03 + 1e-4 * q.norm(); }
          check(on || unclear, "cloud-noise", "a point belongs to an entity whose points are all to be lost");
        }
        continue;
      }
      check_points(plan.lidars[expected[i].first], ego_then, objects, &back, nullptr);
    }
  }

  std::string label(int subtype) const
  {
    static const char * names[] = {"unknown", "car", "truck", "bus", "trailer", "motorcycle", "bicycle", "pedestrian"};
    return names[subtype];
  }
  template <typename O> std::string differs(const O & got, const Object & o, double slack, double twist_slack = 0)
  {
    const V3 p = v3(got.kinematics.pose_with_covariance.pose.position), m = o.middle();
    if (std::abs(p.x() - m.x()) > slack || std::abs(p.y() - m.y()) > slack || std::abs(p.z() - m.z()) > 1e-5 * (1 + m.norm())) return "position " + text(p) + ", not " + text(m);
    if (!near(quat(got.kinematics.pose_with_covariance.pose.orientation), o.q, 1e-3)) return "orientation";
    if ((v3(got.kinematics.twist_with_covariance.twist.linear) - o.twist).norm() > 1e-6 + twist_slack || (v3(got.kinematics.twist_with_covariance.twist.angular) - o.rotation).norm() > 1e-6) return "twist";
    using C = autoware_perception_msgs::msg::ObjectClassification;
    static const std::map<int, int> labels{{0, C::UNKNOWN}, {1, C::CAR}, {2, C::TRUCK}, {3, C::BUS}, {4, C::TRAILER}, {5, C::MOTORCYCLE}, {6, C::BICYCLE}, {7, C::PEDESTRIAN}};
    if (got.classification.size() != 1 || got.classification[0].label != labels.at(o.subtype)) return "classification (" + label(o.subtype) + ")";
    return "";
  }
  // entities are told apart by their size
  template <typename O> const Object * whose(const O & got, const std::vector<Object> & all)
  {
    for (auto & o : all) if ((v3(got.shape.dimensions) - o.size).norm() < 1e-9) return &o;
    return nullptr;
  }
  int in_view(const Object & o, const Object & e, const Detection & c, const DetectionState & s, const std::map<std::string, int> & detected)
  {
    int r = sure_yes;
    auto also = [&](int x) { r = std::min(r, x); };
    const double d = (o.p - e.p).norm();
    also(d < c.range - 1e-6 ? sure_yes : d > c.range + 1e-6 ? sure_no : maybe);
    if (!c.all) also(detected.count(o.name) ? detected.at(o.name) : sure_no);
    if (std::abs(o.p.z() - (e.p.z() - 1)) < 1e-6) also(maybe);
    else if (o.p.z() < e.p.z() - 1) {
      // below: only what is above the plane the vehicle stands on
      bool above = true, below = true;
      for (auto & [p, q] : s.egos) { const double h = (q * V3::UnitZ()).dot(o.p - p); above &= h > 0.05; below &= h < -0.05; }
      also(above ? sure_yes : below ? sure_no : maybe);
    }
    return r;
  }
  // what the configured errors make of an entity; `lost`: it is not detected. false: cannot be told
  bool with_noise(Object & o, const V3 & ego, bool & lost)
  {
    lost = false;
    if (noise.version == 1) return true;
    if (noise.spread > 0) return false;
    if (noise.version >= 3 && noise.names != "*" && o.name.rfind(noise.names.substr(0, noise.names.size() - 1), 0) != 0) return true;
    bool edge = false;
    double x = o.p.x() - ego.x(), y = o.p.y() - ego.y();
    const bool flip = std::hypot(o.twist.x(), o.twist.y()) < noise.flip_below && noise.flip > 0.5;
    if (noise.version == 4) {
      // measured to the closest point of its rectangle (of one of its sides if it stands on a slope, which is left open)
      if ((o.q * V3::UnitZ()).head<2>().norm() > 1e-6) return false;
      const V3 l = o.q.conjugate() * (V3(ego.x(), ego.y(), o.p.z()) - o.p);
      const V3 c(std::clamp(l.x(), o.center.x() - o.size.x() / 2, o.center.x() + o.size.x() / 2), std::clamp(l.y(), o.center.y() - o.size.y() / 2, o.center.y() + o.size.y() / 2), 0);
      const V3 g = o.p + o.q * c;
      x = g.x() - ego.x(); y = g.y() - ego.y();
      if (std::hypot(x, y) < 1e-3) edge = true;
      if (bin(noise.radii, noise.rate, x, y, noise.xr, edge, false) < 0.5) lost = true;
      if (edge) return false;
      if (flip) { const V3 m = o.middle(); o.q = o.q * rpy(0, 0, M_PI); o.p = m - o.q * o.center; }
      return true;
    }
    const double distance = bin(noise.radii, noise.distance, x, y, noise.xd, edge, false), yaw = bin(noise.radii, noise.yaw, x, y, noise.xy, edge, false);
    if (bin(noise.radii, noise.rate, x, y, noise.xr, edge, false) < 0.5) lost = true;
    if (edge || std::hypot(x, y) < 1e-3) return false;
    o.p.x() += distance * x / std::hypot(x, y);
    o.p.y() += distance * y / std::hypot(x, y);
    o.q = o.q * rpy(0, 0, yaw + (flip ? M_PI : 0));
    return true;
  }
  // a delayed detection: whether its errors depend on where the vehicle was then or is now is not specified
  bool with_noise(Object & o, const V3 & then, const V3 & now, bool & lost)
  {
    Object other = o;
    bool also_lost;
    const bool told = with_noise(o, then, lost) & with_noise(other, now, also_lost);
    return told && lost == also_lost && (o.p - other.p).norm() < 1e-7 && near(o.q, other.q, 1e-7);
  }
  void detection(double t, i64 stamp, const std::map<std::string, int> & detected)
  {
    struct Due { std::size_t i; Waiting w; };
    std::vector<Due> seen, truth;
    for (std::size_t i = 0; i < detections.size(); ++i) {
      if (!detections[i]) continue;
      auto & s = *detections[i];
      auto & c = plan.detections[i];
      if (!due(t - s.previous, c.duration)) continue;
      s.previous = t;
      auto & e = world.at(plan.ego);
      s.egos.push_back({e.p, e.q});
      Waiting x{t, {}, e.p};
      for (auto & o : others()) if (const int v = in_view(o, e, c, s, detected); v != sure_no) { x.objects.push_back(o); x.objects.back().sure = v == sure_yes; }
      s.seen.push_back(x);
      s.truth.push_back(x);
      if (t - s.seen.front().t >= c.delay) { seen.push_back({i, s.seen.front()}); s.seen.erase(s.seen.begin()); }
      if (t - s.truth.front().t >= c.truth_delay) { truth.push_back({i, s.truth.front()}); s.truth.erase(s.truth.begin()); }
    }
    check(out->seen.size() == seen.size(), "detection-count", std::to_string(out->seen.size()) + " messages of detected objects are published in a frame, " + std::to_string(seen.size()) + " are due");
    check(out->truth.size() == truth.size(), "truth-count", std::to_string(out->truth.size()) + " messages of the ground truth are published in a frame, " + std::to_string(truth.size()) + " are due");
    for (std::size_t k = 0; k < truth.size(); ++k) {
      auto & m = out->truth[k];
      check(m.stamp == stamp && m.frame == "map", "truth-header", "the ground truth has stamp " + std::to_string(m.stamp) + " and frame " + m.frame);
      std::set<std::string> there;
      for (auto & g : m.objects) {
        auto * o = whose(g, truth[k].w.objects);
        check(o, "truth-ghost", "the ground truth has an object of size " + text(v3(g.shape.dimensions)) + " that is out of sight or not there");
        check(there.insert(o->name).second, "truth-twice", "the ground truth has " + o->name + " twice");
        const auto d = differs(g, *o, 1e-5 * (1 + o->p.norm()));
        check(d.empty(), "truth-wrong", "the ground truth of " + o->name + " has the wrong " + d);
        std::string id(g.object_id.uuid.begin(), g.object_id.uuid.end());
        auto [it, fresh] = uuids->emplace(o->name, id);
        check(it->second == id, "identity-changes", o->name + " has another identity than before");
        if (fresh) for (auto & [n, other] : *uuids) check(n == o->name || other != id, "identity-shared", o->name + " and " + n + " have the same identity");
      }
      for (auto & o : truth[k].w.objects) check(!o.sure || there.count(o.name), "truth-missing", o.name + " is in sight but not in the ground truth");
      ++published;
    }
    for (std::size_t k = 0; k < seen.size(); ++k) {
      auto & m = out->seen[k];
      auto & c = plan.detections[seen[k].i];
      check(m.stamp == stamp && m.frame == "map", "detection-header", "the detected objects have stamp " + std::to_string(m.stamp) + " and frame " + m.frame);
      std::set<std::string> there;
      const double stddev = noise.version == 1 ? c.stddev : 0, lost_rate = noise.version == 1 ? c.lost : 0;
      for (auto & g : m.objects) {
        auto * o = whose(g, seen[k].w.objects);
        check(o, "detection-ghost", "an object of size " + text(v3(g.shape.dimensions)) + " is detected that is out of sight or not there");
        check(there.insert(o->name).second, "detection-twice", o->name + " is detected twice");
        Object expected = *o;
        bool lost;
        if (with_noise(expected, seen[k].w.ego, world.at(plan.ego).p, lost)) {
          check(!lost, "detection-not-lost", o->name + " is detected though every detection at this distance is to be lost");
          const auto d = differs(g, expected, 9 * stddev + 1e-5 * (1 + o->p.norm()));
          check(d.empty(), "detection-wrong", "the detected object of " + o->name + " has the wrong " + d);
        }
        record += text(v3(g.kinematics.pose_with_covariance.pose.position)) + " ";
      }
      if (lost_rate >= 1 && !there.empty()) check(false, "detection-not-lost", *there.begin() + " is detected though every detection is to be lost");
      if (lost_rate <= 0)
        for (auto & o : seen[k].w.objects) {
          Object expected = o;
          bool lost;
          if (with_noise(expected, seen[k].w.ego, world.at(plan.ego).p, lost) && !lost) check(!o.sure || there.count(o.name), "detection-missing", o.name + " is in sight but not detected");
        }
      record += "|";
      ++published;
    }
  }
  void grid(double t, i64 stamp, const std::map<std::string, int> & detected)
  {
    NoInstrument guard;
    std::vector<std::size_t> expected;
    for (std::size_t i = 0; i < grids.size(); ++i) {
      if (!grids[i] || !due(t - grids[i]->previous, plan.grids[i].duration)) continue;
      grids[i]->previous = t;
      expected.push_back(i);
    }
    check(out->grid.size() == expected.size(), "grid-count", std::to_string(out->grid.size()) + " occupancy grids are published in a frame, " + std::to_string(expected.size()) + " are due");
    for (std::size_t k = 0; k < expected.size(); ++k) {
      auto & c = plan.grids[expected[k]];
      auto & m = out->grid[k];
      auto & e = world.at(plan.ego);
      check(nanoseconds(m.header.stamp) == stamp && m.header.frame_id == "map", "grid-header", "the occupancy grid has stamp " + std::to_string(nanoseconds(m.header.stamp)) + " and frame " + m.header.frame_id);
      check(m.info.width == c.width && m.info.height == c.height && m.data.size() == static_cast<std::size_t>(c.width) * c.height && close(m.info.resolution, c.resolution, 1e-6), "grid-size", "the occupancy grid is " + std::to_string(m.info.width) + " by " + std::to_string(m.info.height) + " cells of " + str(m.info.resolution) + " m, not " + std::to_string(c.width) + " by " + std::to_string(c.height) + " of " + str(c.resolution));
      const V2 corner(m.info.origin.position.x, m.info.origin.position.y);
      const V2 wanted = V2(e.p.x(), e.p.y()) - V2(c.width, c.height) * c.resolution / 2;
      check((corner - wanted).norm() < 1e-6 * (1 + wanted.norm()), "grid-origin", "the occupancy grid begins at (" + str(corner.x()) + ", " + str(corner.y()) + "), not at (" + str(wanted.x()) + ", " + str(wanted.y()) + ")");
      std::vector<std::pair<Polygon, bool>> polygons;
      for (auto & o : others()) {
        int v = detected.count(o.name) ? detected.at(o.name) : sure_no;
        const double d = (o.p - e.p).norm();
        if (c.filter) v = std::min(v, d < c.range - 1e-6 ? sure_yes : d > c.range + 1e-6 ? sure_no : maybe);
        if (v != sure_no) polygons.push_back({footprint(o), v == sure_yes});
      }
      const V2 here(e.p.x(), e.p.y());
      const double r = c.resolution * 0.7072;
      for (unsigned row = 0; row < c.height; ++row)
        for (unsigned col = 0; col < c.width; ++col) {
          const V2 p = wanted + V2(col + 0.5, row + 0.5) * c.resolution;
          const int got = m.data[row * c.width + col];
          bool occupied = false, may_be_occupied = false, shadow = false, may_be_shadow = false;
          for (auto & [h, sure] : polygons) {
            const double in = depth(h, p);
            if (in > -r - 1e-4) may_be_occupied = true;
            if (sure && in > 1e-4) occupied = true;
            const double g = gap(h, here, p);
            if (g < r + 1e-4) may_be_shadow = true;
            if (sure && g == 0) {
              // deep enough that rounding cannot matter
              V2 mid = V2::Zero(); for (auto & x : h) mid += x; mid /= static_cast<double>(h.size());
              Polygon smaller = h; for (auto & x : smaller) x = mid + (x - mid) * 0.98;
              if (gap(smaller, here, p) == 0) shadow = true;
            }
          }
          const bool fine = got == 100 ? may_be_occupied : got == 50 ? may_be_shadow && !occupied : got == 0 ? !occupied && !shadow : false;
          if (!fine) {
            logf("grid of ", c.width, " by ", c.height, " cells of ", str(c.resolution), " m, row ", row, " column ", col, " is wrong");
            for (auto & [h, sure] : polygons) { std::string z; for (auto & q : h) z += " (" + str(q.x() - here.x()) + ", " + str(q.y() - here.y()) + ")"; logf(sure ? "detected" : "maybe detected", z); }
            for (unsigned a = c.height; a-- > 0;) { std::string z; for (unsigned b = 0; b < c.width; ++b) z += m.data[a * c.width + b] == 100 ? '#' : m.data[a * c.width + b] ? '+' : '.'; logf(a, " ", z); }
          }
          check(fine, "grid-cell", "the cell at (" + str(p.x()) + ", " + str(p.y()) + ") is " + std::to_string(got) + " though it is " + (occupied ? "occupied" : shadow ? "hidden" : may_be_occupied || may_be_shadow ? "not certain" : "free"));
          ++cells;
        }
      ++published;
    }
  }
  void frame(double t, i64 stamp)
  {
    check_imu(stamp);
    std::map<std::string, int> detected;
    lidar(t, stamp, detected);
    detection(t, stamp, detected);
    grid(t, stamp, detected);
    check(out->lights.size() == (detector ? 1u : 0u), "lights-count", std::to_string(out->lights.size()) + " traffic light messages are published in a frame" + (detector ? "" : " though there is no detector"));
    if (detector) {
      check(out->lights[0].first == stamp, "lights-stamp", "the traffic lights are stamped " + std::to_string(out->lights[0].first));
      auto describe = [](const std::map<int, lights::Bulbs> & m) { std::string s; for (auto & [id, b] : m) s += std::to_string(id) + lights::list(b) + " "; return s; };
      check(out->lights[0].second == shown, "lights-wrong", "the traffic lights shown are " + describe(out->lights[0].second) + "not " + describe(shown));
      ++published;
    }
  }
};

Plan make_plan(int index, bool clairvoyant_only)
{
  Plan p;
  p.dt = std::vector<double>{1.0 / 30, 0.05, 0.1, 0.025}[w(4)];
  p.t0 = wchance(1, 2) ? 0 : real(0, 20);
  p.ros0 = 5'000'000'000 + static_cast<i64>(w(1'000'000'000));
  p.frames = 3 + static_cast<int>(w(wchance(1, 4) ? 60 : 20));
  p.started = static_cast<int>(w(4));
  p.ego = wchance(1, 3) ? "ego" + std::to_string(index) : "ego";
  const bool hilly = wchance(1, 4);
  const double slope = hilly ? real(-0.2, 0.2) : 0;
  auto car = world::car(4.2 + 0.01 * static_cast<double>(w(60)));
  p.vehicle.name = p.ego;
  p.vehicle.center = V3(car.bounding_box.center.x, 0, 0.9);
  p.vehicle.size = V3(car.bounding_box.dimensions.x, 2.1, 1.8);
  p.vehicle.at = V3(real(0, 200), real(-20, 20), wchance(1, 2) ? 0 : real(-3, 3));
  p.vehicle.yaw = wchance(1, 3) ? 0 : real(-3.1, 3.1);
  p.vehicle.pitch = slope;
  p.vehicle.velocity = wchance(1, 3) ? V3::Zero() : V3(real(-3, 15), 0, 0);
  p.vehicle.turn = hilly || wchance(1, 2) ? 0 : real(-0.5, 0.5);
  p.vehicle.rotation = V3(0, 0, p.vehicle.turn);
  p.vehicle.accel = V3(real(-2, 2), 0, 0);
  const int n = static_cast<int>(w(7));
  for (int i = 0; i < n; ++i) {
    Thing t;
    t.kind = static_cast<int>(w(3));
    t.name = (t.kind == 0 ? "car_" : t.kind == 1 ? "person_" : "box_") + std::to_string(i);
    t.subtype = t.kind == 0 ? static_cast<int>(w(7)) : t.kind == 1 ? 7 : 0;
    t.size = t.kind == 1 ? V3(real(0.3, 1), real(0.3, 1), real(1, 2)) : V3(real(0.6, 12), real(0.6, 3), real(0.5, 4));
    t.center = wchance(1, 3) ? V3::Zero() : V3(real(-1, 3), wchance(1, 2) ? 0 : real(-0.5, 0.5), t.size.z() / 2);
    const double far = wchance(1, 5) ? 320 : wchance(1, 2) ? 60 : 20, bearing = real(-M_PI, M_PI), d = real(wchance(1, 8) ? 1 : 9, far);
    const V3 offset(d * std::cos(bearing), d * std::sin(bearing), wchance(2, 3) ? 0 : real(-8, 8));
    t.at = p.vehicle.at + rpy(0, slope, p.vehicle.yaw) * offset;
    t.yaw = wchance(1, 3) ? 0 : real(-3.1, 3.1);
    t.pitch = wchance(3, 4) ? 0 : real(-0.3, 0.3);
    t.velocity = wchance(1, 3) ? V3::Zero() : V3(real(-10, 10), real(-10, 10), 0);
    t.turn = wchance(1, 2) ? 0 : real(-0.5, 0.5);
    t.rotation = V3(0, 0, t.turn);
    t.accel = V3(real(-2, 2), real(-1, 1), 0);
    if (wchance(1, 4)) t.from = 1 + static_cast<int>(w(static_cast<unsigned>(p.frames)));
    if (wchance(1, 4)) t.to = t.from + 1 + static_cast<int>(w(static_cast<unsigned>(p.frames)));
    p.things.push_back(t);
  }
  if (wchance(1, 6)) p.ego_gone = 1 + static_cast<int>(w(static_cast<unsigned>(p.frames)));
  auto duration = [&] { return p.dt * std::vector<double>{0, 1, 2, 2.5, 3, 5.5}[w(6)]; };
  auto delay = [&] { return wchance(1, 2) ? 0 : p.dt * (0.5 + static_cast<double>(w(6))); };
  auto at = [&] { return wchance(3, 4) ? 0 : static_cast<int>(w(static_cast<unsigned>(std::min(p.frames, p.ego_gone)))); };
  for (unsigned i = w(3); i > 0; --i) {
    Imu c;
    c.entity = wchance(3, 4) || p.things.empty() ? p.ego : p.things[w(static_cast<unsigned>(p.things.size()))].name;
    c.frame = "imu" + std::to_string(index) + "_" + std::to_string(i);
    c.gravity = wchance(1, 2);
    c.so = wchance(2, 3) ? 0 : real(0, 0.02); c.st = wchance(1, 2) ? 0 : real(0, 0.5); c.sa = wchance(1, 2) ? 0 : real(0, 1);
    c.seed = 1 + static_cast<int>(w(1000));
    c.at = at();
    p.imus.push_back(c);
  }
  for (unsigned i = clairvoyant_only ? 0 : w(3); i > 0; --i) {
    Lidar c{real(0.03, 0.2), duration(), delay(), {}, at()};
    for (unsigned k = 1 + w(4), j = 0; j < k; ++j) c.angles.push_back(real(-0.15, 0.15) + 0.31 * (j == 0 ? 0 : j % 2 ? 1 : -1) * ((j + 1) / 2));
    p.lidars.push_back(c);
  }
  for (unsigned i = wchance(1, 5) ? 2 : w(3) ? 1 : 0; i > 0; --i)
    p.detections.push_back({duration(), wchance(1, 3) ? 300 : real(5, 60), delay(), delay(), wchance(1, 2) ? 0 : real(0, 0.3), std::vector<double>{0, 0, 0.5, 1}[w(4)], clairvoyant_only || wchance(1, 2), static_cast<int>(1 + w(1000)), at()});
  for (unsigned i = wchance(1, 8) ? 2 : w(2); i > 0; --i) {
    const unsigned side = 12 + w(20);
    p.grids.push_back({duration(), real(0.4, 2.5), wchance(1, 2) ? 300 : real(5, 40), side, wchance(1, 2) ? side : 12 + w(20), wchance(1, 2), at()});
  }
  auto sort = [](auto & v) { std::stable_sort(v.begin(), v.end(), [](auto & a, auto & b) { return a.at < b.at; }); };      // published in the order of attachment
  sort(p.imus); sort(p.lidars); sort(p.detections); sort(p.grids);
  if (wchance(2, 3)) p.detector_at = at();
  for (int f = 0; f < p.frames; ++f) {
    p.order.push_back(w(6));
    p.lights.emplace_back();
    if (!wchance(1, 3)) continue;
    auto & l = p.lights.back().emplace();
    for (unsigned i = w(4); i > 0; --i) {
      auto & bulbs = l[500 + static_cast<int>(i) * 10];
      for (unsigned k = w(3); k > 0; --k) {
        schema::TrafficLight b;
        b.set_color(static_cast<schema::TrafficLight::Color>(w(4)));
        b.set_shape(std::vector<schema::TrafficLight::Shape>{schema::TrafficLight::CIRCLE, schema::TrafficLight::LEFT_ARROW, schema::TrafficLight::RIGHT_ARROW, schema::TrafficLight::UP_ARROW, schema::TrafficLight::DOWN_ARROW, schema::TrafficLight::CROSS}[w(6)]);
        b.set_status(static_cast<schema::TrafficLight::Status>(w(3)));
        b.set_confidence(static_cast<float>(w(5)) / 4);
        bulbs.push_back(b);
      }
    }
  }
  p.orderly = wchance(2, 3);
  return p;
}

// where a thing of the plan is in frame f
std::pair<V3, Q> place(const Thing & t, double elapsed, bool forward)
{
  const double yaw = t.yaw + t.turn * elapsed;
  const Q q = rpy(0, t.pitch, yaw);
  return {t.at + (forward ? V3(rpy(0, t.pitch, t.yaw) * t.velocity * elapsed) : V3(t.velocity * elapsed)), q};
}
schema::EntityStatus status_of(const Thing & t, double time, double elapsed, bool ego)
{
  schema::EntityStatus s;
  s.mutable_type()->set_type(ego ? pb::EntityType::EGO : t.kind == 0 ? pb::EntityType::VEHICLE : t.kind == 1 ? pb::EntityType::PEDESTRIAN : pb::EntityType::MISC_OBJECT);
  s.mutable_subtype()->set_value(static_cast<pb::EntitySubtype::Enum>(t.subtype));
  s.set_time(time);
  s.set_name(t.name);
  const auto [p, q] = place(t, elapsed, ego);
  put(s.mutable_pose(), p, q);
  auto & a = *s.mutable_action_status();
  a.set_current_action("driving " + t.name);
  a.mutable_twist()->mutable_linear()->set_x(ego ? t.velocity.x() : t.velocity.norm());
  a.mutable_twist()->mutable_angular()->set_z(t.turn);
  a.mutable_accel()->mutable_linear()->set_x(t.accel.x());
  a.mutable_accel()->mutable_linear()->set_y(t.accel.y());
  a.set_linear_jerk(0.25);
  return s;
}
void box(pb::BoundingBox * b, const Thing & t)
{
  b->mutable_center()->set_x(t.center.x()); b->mutable_center()->set_y(t.center.y()); b->mutable_center()->set_z(t.center.z());
  b->mutable_dimensions()->set_x(t.size.x()); b->mutable_dimensions()->set_y(t.size.y()); b->mutable_dimensions()->set_z(t.size.z());
}
void spawn(Client & c, const Thing & t, double elapsed, bool ego)
{
  const auto [p, q] = place(t, elapsed, ego);
  logf("spawn ", t.name, " at ", text(p), " size ", text(t.size), " center ", text(t.center));
  if (t.kind == 0) {
    schema::SpawnVehicleEntityRequest r;
    auto m = world::car();
    m.name = t.name;
    simulation_interface::toProto(m, *r.mutable_parameters());
    box(r.mutable_parameters()->mutable_bounding_box(), t);
    r.set_is_ego(ego);
    put(r.mutable_pose(), p, q);
    c.ok(r, "spawning a vehicle");
  } else if (t.kind == 1) {
    schema::SpawnPedestrianEntityRequest r;
    r.mutable_parameters()->set_name(t.name);
    box(r.mutable_parameters()->mutable_bounding_box(), t);
    put(r.mutable_pose(), p, q);
    c.ok(r, "spawning a pedestrian");
  } else {
    schema::SpawnMiscObjectEntityRequest r;
    r.mutable_parameters()->set_name(t.name);
    box(r.mutable_parameters()->mutable_bounding_box(), t);
    put(r.mutable_pose(), p, q);
    c.ok(r, "spawning an object");
  }
}
template <typename A, typename S> void keep(Object & o, const A & action, const S & pose)
{
  o.p = position(pose); o.q = orientation(pose);
  auto v = [](auto & x) { return V3(x.x(), x.y(), x.z()); };
  o.twist = v(action.twist().linear()); o.rotation = v(action.twist().angular()); o.accel = v(action.accel().linear());
}
template <typename S> void look(Object & o, const Thing & t, const S &) { o.name = t.name; o.subtype = t.subtype; o.center = t.center; o.size = t.size; }

// one scenario; false if the client gave up in the middle
bool play(Client & c, const Plan & p, const Noise & noise, int give_up, std::string & record, u64 & shape)
{
  Model m(p, noise);
  initialize(c, p.t0, p.ros0, p.dt);
  auto time = [&](int f) { return p.t0 + f * p.dt; };
  auto stamp = [&](int f) { return p.ros0 + static_cast<i64>(std::llround(f * p.dt * 1e9)); };
  spawn(c, p.vehicle, 0, true);
  Object ego;
  look(ego, p.vehicle, 0);
  ego.subtype = 0;
  std::tie(ego.p, ego.q) = place(p.vehicle, 0, true);
  ego.twist = ego.rotation = ego.accel = V3::Zero();
  m.world[p.ego] = ego;
  double asked = p.t0;                        // the simulation time the simulator last heard of
  for (int f = 0; f < p.frames; ++f) {
    if (f == give_up) return false;
    for (auto & t : p.things) {
      if (t.from == f) {
        spawn(c, t, 0, false);
        Object o;
        look(o, t, 0);
        o.subtype = 0;                          // not told before its first update
        std::tie(o.p, o.q) = place(t, 0, false);
        o.twist = o.rotation = o.accel = V3::Zero();
        m.world[t.name] = o;
      }
      if (t.to == f && m.world.count(t.name)) { despawn(c, t.name); m.world.erase(t.name); for (std::size_t i = 0; i < p.imus.size(); ++i) if (p.imus[i].entity == t.name) m.imus[i] = false; }
    }
    if (p.ego_gone == f) {
      despawn(c, p.ego);
      m.world.erase(p.ego);
      for (auto & x : m.lidars) x.reset();
      for (auto & x : m.detections) x.reset();
      for (auto & x : m.grids) x.reset();
      for (std::size_t i = 0; i < p.imus.size(); ++i) if (p.imus[i].entity == p.ego) m.imus[i] = false;
      probe("ego_removed");
    }
    const std::string architecture = "awf/universe/20240605";
    for (std::size_t i = 0; i < p.imus.size(); ++i) if (p.imus[i].at == f && m.world.count(p.imus[i].entity)) {
      auto & x = p.imus[i];
      schema::AttachImuSensorRequest r;
      auto & k = *r.mutable_configuration();
      k.set_entity(x.entity); k.set_frame_id(x.frame); k.set_add_gravity(x.gravity); k.set_use_seed(true); k.set_seed(x.seed);
      k.set_noise_standard_deviation_orientation(x.so); k.set_noise_standard_deviation_twist(x.st); k.set_noise_standard_deviation_acceleration(x.sa);
      c.ok(r, "attaching an IMU");
      m.imus[i] = true;
    }
    if (m.world.count(p.ego)) {
      for (std::size_t i = 0; i < p.lidars.size(); ++i) if (p.lidars[i].at == f) {
        auto & x = p.lidars[i];
        schema::AttachLidarSensorRequest r;
        auto & k = *r.mutable_configuration();
        k.set_entity(p.ego); k.set_horizontal_resolution(x.resolution); k.set_scan_duration(x.duration); k.set_architecture_type(architecture); k.set_lidar_sensor_delay(x.delay);
        for (auto a : x.angles) k.add_vertical_angles(a);
        c.ok(r, "attaching a LiDAR");
        m.lidars[i] = Model::LidarState{asked, {}, {}};
      }
      for (std::size_t i = 0; i < p.detections.size(); ++i) if (p.detections[i].at == f) {
        auto & x = p.detections[i];
        schema::AttachDetectionSensorRequest r;
        auto & k = *r.mutable_configuration();
        k.set_entity(p.ego); k.set_update_duration(x.duration); k.set_range(x.range); k.set_architecture_type(architecture); k.set_detect_all_objects_in_range(x.all);
        k.set_pos_noise_stddev(x.stddev); k.set_random_seed(x.seed); k.set_probability_of_lost(x.lost); k.set_object_recognition_delay(x.delay); k.set_object_recognition_ground_truth_delay(x.truth_delay);
        c.ok(r, "attaching a detection sensor");
        m.detections[i] = Model::DetectionState{asked, {}, {}, {}};
      }
      for (std::size_t i = 0; i < p.grids.size(); ++i) if (p.grids[i].at == f) {
        auto & x = p.grids[i];
        schema::AttachOccupancyGridSensorRequest r;
        auto & k = *r.mutable_configuration();
        k.set_entity(p.ego); k.set_update_duration(x.duration); k.set_resolution(x.resolution); k.set_width(x.width); k.set_height(x.height); k.set_architecture_type(architecture); k.set_range(x.range); k.set_filter_by_range(x.filter);
        c.ok(r, "attaching an occupancy grid sensor");
        m.grids[i] = Model::GridState{asked};
      }
    }
    if (p.detector_at == f) {
      schema::AttachPseudoTrafficLightDetectorRequest r;
      r.mutable_configuration()->set_architecture_type(architecture);
      c.ok(r, "attaching a traffic light detector");
      m.detector = true;
    }
    auto update_status = [&] {
      schema::UpdateEntityStatusRequest r;
      r.set_npc_logic_started(f >= p.started);
      r.set_overwrite_ego_status(f >= p.started);
      std::vector<std::string> names;
      if (m.world.count(p.ego)) { *r.add_status() = status_of(p.vehicle, time(f), (f - p.started) * p.dt, true); names.push_back(p.ego); }
      for (auto & t : p.things) if (m.world.count(t.name)) { *r.add_status() = status_of(t, time(f), (f - t.from) * p.dt, false); names.push_back(t.name); }
      const auto a = c.call(r);
      check(a.result().success() && a.status_size() == static_cast<int>(names.size()), "status-answer", "an update of " + std::to_string(names.size()) + " entities is answered with " + std::to_string(a.status_size()));
      for (int i = 0; i < a.status_size(); ++i) {
        check(a.status(i).name() == names[static_cast<std::size_t>(i)], "status-answer", "the status of " + names[static_cast<std::size_t>(i)] + " is answered with that of " + a.status(i).name());
        auto & o = m.world.at(names[static_cast<std::size_t>(i)]);
        keep(o, a.status(i).action_status(), a.status(i).pose());
        for (auto & t : p.things) if (t.name == o.name) o.subtype = t.subtype;
      }
    };
    auto update_lights = [&] {
      auto & l = p.lights[static_cast<std::size_t>(f)];
      if (!l) return;
      schema::UpdateTrafficLightsRequest r;
      m.shown.clear();
      for (auto & [id, bulbs] : *l) {
        auto & s = *r.add_states();
        s.set_id(id);
        for (int k = 1; k <= 1 + id / 10 % 2; ++k) {
          s.add_relation_ids(id + k);
          if (bulbs.empty()) continue;
          auto & b = m.shown[id + k];
          for (auto & x : bulbs) b.insert(lights::request_bulb(x));
        }
        for (auto & x : bulbs) *s.add_traffic_light_status() = x;
      }
      c.ok(r, "updating the traffic lights");
    };
    auto update_frame = [&] {
      schema::UpdateFrameRequest r;
      r.set_current_simulation_time(time(f));
      r.set_current_scenario_time(f < p.started ? std::nan("") : (f - p.started) * p.dt);
      r.mutable_current_ros_time()->set_sec(static_cast<int>(stamp(f) / 1'000'000'000));
      r.mutable_current_ros_time()->set_nanosec(static_cast<unsigned>(stamp(f) % 1'000'000'000));
      *out = {};
      c.ok(r, "updating the frame");
      asked = time(f);
      m.frame(time(f), stamp(f));
      *out = {};
    };
    switch (p.order[static_cast<std::size_t>(f)]) {
      case 0: update_status(); update_lights(); update_frame(); break;
      case 1: update_lights(); update_status(); update_frame(); break;
      case 2: update_frame(); update_status(); update_lights(); break;
      case 3: update_frame(); update_lights(); update_status(); break;
      case 4: update_status(); update_frame(); update_lights(); break;
      default: update_lights(); update_frame(); update_status();
    }
  }
  if (p.orderly) for (auto it = m.world.begin(); it != m.world.end(); it = m.world.erase(it)) despawn(c, it->first);
  record = m.record;
  shape = shape * 31 + m.points * 7 + m.published;
  count("points", m.points); count("sensor_messages", m.published); count("cells", m.cells);
  return true;
}

void configure(const Noise & noise)
{
  auto & n = simros::network().parameters;
  auto set = [&](const std::string & k, auto v) { n[k] = rclcpp::ParameterValue(v); };
  set(objects_topic + ".noise.model.version", noise.version);
  set(objects_topic + ".seed", noise.seed);
  set(objects_topic + ".override_legacy_configuration", false);
  set(truth_topic + ".override_legacy_configuration", false);
  auto constant = [&](const std::string & base) {
    for (auto k : {"amplitude", "decay", "offset"}) set(base + ".autocorrelation_coefficient." + k, 0.0);
  };
  auto values = [&](const std::string & base, double x, const std::vector<double> & v) { set(base + ".ellipse_normalized_x_radius", x); set(base + ".values", v); };
  const std::vector<double> zero(noise.radii.size(), 0.0);
  const std::string name = "errors";
  const std::string b = objects_topic + ".noise.v" + std::to_string(noise.version) + "." + (noise.version >= 3 ? name + "." : "");
  if (noise.version >= 3) for (auto k : {"types", "subtypes"}) set(b + "noise_application_entities." + k, std::vector<std::string>{"*"});
  if (noise.version >= 3) set(b + "noise_application_entities.names", std::vector<std::string>{noise.names});
  if (noise.version >= 2) {
    set(b + "ellipse_y_radii", noise.radii);
    for (auto k : noise.version == 4 ? std::vector<std::string>{"position.x", "position.y", "yaw"} : std::vector<std::string>{"distance", "yaw"}) {
      constant(b + k);
      const bool d = k == "distance", y = k == "yaw" && noise.version != 4;
      values(b + k + ".mean", d ? noise.xd : y ? noise.xy : 1, d ? noise.distance : y ? noise.yaw : zero);
      values(b + k + ".standard_deviation", 1, std::vector<double>(noise.radii.size(), noise.spread));
    }
    constant(b + "yaw_flip");
    set(b + "yaw_flip.speed_threshold", noise.flip_below);
    set(b + "yaw_flip.rate", noise.flip);
    constant(b + "true_positive");
    values(b + "true_positive.rate", noise.xr, noise.rate);
  }
  if (noise.lidar) {
    const std::string l = cloud_topic + ".noise.v1.errors.";
    set(cloud_topic + ".noise.model.version", 1);
    set(cloud_topic + ".seed", noise.seed);
    for (auto k : {"types", "subtypes", "names"}) set(l + "noise_application_entities." + k, std::vector<std::string>{"*"});
    set(l + "ellipse_y_radii", noise.lidar_radii);
    const std::vector<double> none(noise.lidar_radii.size(), 0.0);
    for (auto k : {"radial", "tangential"}) {
      values(l + "distance." + k + ".mean", 1, std::string(k) == "radial" ? noise.lidar_shift : none);
      values(l + "distance." + k + ".standard_deviation", 1, none);
    }
    values(l + "true_positive.rate", 1, noise.lidar_rate);
  }
}

void sensors()
{
  start_world();
  for (auto k : {"thread_stall", "late_wakeup"}) enable_fault(k, wchance(1, 6));
  enable_fault("client_dies", wchance(1, 2));
  set_limits(20'000'000, 20000 * sec);
  Noise noise;
  noise.version = wchance(1, 2) ? 1 : 1 + static_cast<int>(w(4));
  noise.seed = 1 + static_cast<int>(w(1000));
  double radius = 0;
  for (unsigned i = 1 + w(4); i > 0; --i) { noise.radii.push_back(radius += real(3, 30)); noise.distance.push_back(real(-2, 2)); noise.yaw.push_back(real(-1, 1)); noise.rate.push_back(w(3) ? 1 : 0); }
  if (wchance(2, 3)) noise.radii.back() = 1000;
  if (wchance(1, 2)) { noise.xd = real(0.5, 2); noise.xy = real(0.5, 2); noise.xr = real(0.5, 2); }
  noise.flip = w(2); noise.flip_below = real(0.1, 8);
  if (wchance(1, 2)) noise.names = std::vector<const char *>{"car_*", "person_*", "box_*"}[w(3)];
  noise.lidar = wchance(1, 4);
  radius = 0;
  for (unsigned i = 1 + w(4); i > 0; --i) { noise.lidar_radii.push_back(radius += real(3, 30)); noise.lidar_shift.push_back(real(-1, 1)); noise.lidar_rate.push_back(w(3) ? 1 : 0); }
  if (wchance(1, 4)) noise.spread = real(0.01, 0.5);
  configure(noise);
  out = new Outputs;
  uuids = new std::map<std::string, std::string>;
  watch("awf/universe/20240605");
  Process process("5555");
  Client c;
  c.connect();
  const int scenarios = 1 + static_cast<int>(w(3));
  u64 shape = static_cast<u64>(noise.version);
  std::string told;
  std::optional<Plan> again;
  std::string before;
  int finished = 0;
  for (int i = 0; i < scenarios; ++i) {
    const bool repeat = again && wchance(1, 2);
    Plan p = repeat ? *again : make_plan(i, false);
    if (noise.version >= 2) for (auto & d : p.detections) { d.delay = 0; if (repeat) d.seed = 1 + static_cast<int>(w(1000)); }   // the seed is that of the parameters
    const int give_up = fault("client_dies", 1, 4) ? static_cast<int>(w(static_cast<unsigned>(p.frames))) : -1;
    std::string record;
    *out = {};
    if (play(c, p, noise, give_up, record, shape)) {
      ++finished;
      if (repeat) {
        check(record == before, "not-repeatable", "the same scenario with the same seeds has other random errors than before");
        probe("repeated");
      }
      again = p;
      before = record;
    } else {
      again.reset();
      probe("client_died");
      // its last request may still wait to be served when the next traffic simulator connects
      c.real.reset();
      schema::SimulationRequest r;
      switch (w(3)) {
        case 0: r.mutable_despawn_entity()->set_name(p.ego); break;
        case 1: r.mutable_update_step_time()->set_simulation_step_time(0.5); break;
        default: r.mutable_update_traffic_lights();
      }
      c.die(r);
      std::this_thread::sleep_for(std::chrono::milliseconds(10));
      c.connect();
    }
    told += (told.empty() ? "" : "; ") + std::to_string(p.things.size()) + " entities, " + std::to_string(p.imus.size()) + "/" + std::to_string(p.lidars.size()) + "/" + std::to_string(p.detections.size()) + "/" + std::to_string(p.grids.size()) + " sensors, " + std::to_string(p.frames) + " frames" + (give_up >= 0 ? " (abandoned)" : repeat ? " (repeated)" : "");
    shape = shape * 131 + static_cast<u64>(p.frames) + 7 * p.things.size() + 100 * p.lidars.size() + 1000 * p.grids.size();
  }
  c.real.reset();
  process.stop();
  if (finished) nontrivial(shape);
  sample("noise version " + std::to_string(noise.version) + ": " + told);
}
}  // namespace

int main(int argc, char ** argv)
{
  return driver_main(argc, argv, {{"C17", sensors,
    "workload: a simulator process that serves 1-3 scenarios one after another; each has an Autoware vehicle and up to 6 vehicles, pedestrians and objects that appear, move and disappear, up to 2 IMUs, LiDARs, detection sensors and occupancy grids and a traffic light detector attached at any frame, 3-60 frames in any order of requests; "
    "noise models 1-4 and LiDAR noise with configured errors; faults: the client dies in the middle of a scenario with a request on its way and another one begins, the Autoware vehicle is removed, stalled threads; non-trivial: at least one scenario played to its end; distinct by scenario shape, number of points and messages",
    {"simple_sensor_simulator/src (all sensors, ScenarioSimulator)", "simulation_interface (ZeroMQ server and client, conversions)", "concealer", "traffic_simulator", "geometry"},
    {"ZeroMQ transport", "ROS transport, clock and executors", "Embree (every triangle tried)", "PCL point cloud container", "Lanelet2 (small map)"}},
    {"C18", motion,
    "workload: a simulator process that serves 1-3 scenarios; an Autoware vehicle of one of the eight models with drawn limits, delays and time constants, up to 4 other entities, up to 42 frames; commands and gears from Autoware, changes of the control mode, overwritten and driven updates before and after the start, changes of the step time, "
    "removal and respawn, requests before initialisation, a second client; faults: the client dies with a request on its way, stalled threads; non-trivial: the vehicle was there after the start; distinct by model and positions",
    {"simple_sensor_simulator/src (ScenarioSimulator, EgoEntitySimulation, all vehicle models)", "simulation_interface (ZeroMQ server and client, conversions)", "concealer::AutowareUniverse", "traffic_simulator (poses)"},
    {"ZeroMQ transport", "ROS transport, clock and executors", "Autoware (commands and control mode requests)", "Lanelet2 (small map)"}}});
}
