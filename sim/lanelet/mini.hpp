// A small stand-in for lanelet2 and autoware_lanelet2_extension: maps of lanelets given by their bounds, with a routing graph built from
// shared end points and neighbouring bounds. Only what traffic_simulator's lanelet_wrapper uses.
#pragma once
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <algorithm>
#include <boost/lexical_cast.hpp>
#include <boost/optional.hpp>
#include <cmath>
#include <cstdint>
#include <iomanip>
#include <rclcpp/rclcpp.hpp>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include <visualization_msgs/msg/marker_array.hpp>

namespace std
{
template <> struct hash<std::pair<std::string, std::string>>  // the real headers of lanelet2 bring a hash of pairs along
{
  std::size_t operator()(const std::pair<std::string, std::string> & p) const { return std::hash<std::string>()(p.first) * 31 + std::hash<std::string>()(p.second); }
};
}  // namespace std

namespace lanelet
{
using Id = std::int64_t;
using Ids = std::vector<Id>;
constexpr Id InvalId = 0;
template <typename T> using Optional = boost::optional<T>;
struct BasicPoint2d : Eigen::Vector2d
{
  using Eigen::Vector2d::Vector2d;
  BasicPoint2d() : Eigen::Vector2d(0, 0) {}
  BasicPoint2d(const Eigen::Vector2d & v) : Eigen::Vector2d(v) {}
};
using BasicPoint3d = Eigen::Vector3d;
using BasicPoints3d = std::vector<BasicPoint3d>;
struct BasicPolygon2d : std::vector<BasicPoint2d> { using std::vector<BasicPoint2d>::vector; };
struct NoSuchPrimitiveError : std::runtime_error { using std::runtime_error::runtime_error; };

enum class AttributeName { Type, Subtype, OneWay, Location, SpeedLimit };
inline std::string attribute_key(AttributeName n)
{
  switch (n) {
    case AttributeName::Type: return "type";
    case AttributeName::Subtype: return "subtype";
    case AttributeName::OneWay: return "one_way";
    case AttributeName::Location: return "location";
    default: return "speed_limit";
  }
}
inline std::string attribute_key(const std::string & s) { return s; }
struct AttributeValueString
{
  static constexpr char Road[] = "road", Crosswalk[] = "crosswalk", Walkway[] = "walkway", Highway[] = "highway", BicycleLane[] = "bicycle_lane",
                        PlayStreet[] = "play_street", EmergencyLane[] = "emergency_lane", Exit[] = "exit", Stairs[] = "stairs", SharedWalkway[] = "shared_walkway";
};
struct Participants { static constexpr char Vehicle[] = "vehicle", Pedestrian[] = "pedestrian", Bicycle[] = "bicycle", VehicleEmergency[] = "vehicle:emergency"; };
struct Locations { static constexpr char Germany[] = "de"; };

struct Attribute
{
  std::string v;
  Attribute(const std::string & s = "") : v(s) {}
  Attribute(const char * s) : v(s) {}
  const std::string & value() const { return v; }
  Optional<Id> asId() const { try { return Id(std::stoll(v)); } catch (...) { return boost::none; } }
  Optional<double> asDouble() const { try { return std::stod(v); } catch (...) { return boost::none; } }
};
struct Primitive
{
  Id i = InvalId;
  std::map<std::string, Attribute> a;
};
template <typename D> struct Handle
{
  std::shared_ptr<D> d;
  Handle() : d(std::make_shared<D>()) {}
  explicit Handle(Id id) : Handle() { d->i = id; }
  Id id() const { return d->i; }
  template <typename K> bool hasAttribute(const K & k) const { return d->a.count(attribute_key(k)) != 0; }
  template <typename K> Attribute attribute(const K & k) const
  {
    auto it = d->a.find(attribute_key(k));
    if (it == d->a.end()) throw NoSuchPrimitiveError("no attribute " + attribute_key(k));
    return it->second;
  }
  template <typename K> std::string attributeOr(const K & k, const std::string & o) const { auto it = d->a.find(attribute_key(k)); return it == d->a.end() ? o : it->second.value(); }
  void setAttribute(const std::string & k, const std::string & v) { d->a[k] = v; }
  bool operator==(const Handle & o) const { return d == o.d; }
  bool operator!=(const Handle & o) const { return d != o.d; }
  bool operator<(const Handle & o) const { return id() < o.id(); }
};

struct PointData : Primitive { BasicPoint3d p{0, 0, 0}; };
struct Point3d : Handle<PointData>
{
  Point3d() = default;
  Point3d(Id id, double x, double y, double z) : Handle(id) { d->p = {x, y, z}; }
  double x() const { return d->p.x(); }
  double y() const { return d->p.y(); }
  double z() const { return d->p.z(); }
  const BasicPoint3d & basicPoint() const { return d->p; }
};
using ConstPoint3d = Point3d;
struct LineStringData : Primitive { std::vector<Point3d> pts; };
struct LineString3d : Handle<LineStringData>
{
  LineString3d() = default;
  LineString3d(Id id, const std::vector<Point3d> & p) : Handle(id) { d->pts = p; }
  auto begin() const { return d->pts.cbegin(); }
  auto end() const { return d->pts.cend(); }
  std::size_t size() const { return d->pts.size(); }
  bool empty() const { return d->pts.empty(); }
  const Point3d & front() const { return d->pts.front(); }
  const Point3d & back() const { return d->pts.back(); }
  const Point3d & operator[](std::size_t k) const { return d->pts[k]; }
};
using ConstLineString3d = LineString3d;
using LineStrings3d = std::vector<LineString3d>;
using ConstLineStrings3d = LineStrings3d;
using CompoundPolygon3d = std::vector<Point3d>;
using Polygon3d = LineString3d;
using ConstPolygons3d = std::vector<Polygon3d>;
struct LineStringOrPolygon3d : LineString3d
{
  LineStringOrPolygon3d() = default;
  LineStringOrPolygon3d(const LineString3d & l) : LineString3d(l) {}
  bool isLineString() const { return true; }
};

struct LaneletData;
struct Lanelet;
struct RegulatoryElement : Primitive
{
  using Ptr = std::shared_ptr<RegulatoryElement>;
  using ConstPtr = std::shared_ptr<const RegulatoryElement>;
  virtual ~RegulatoryElement() = default;
  Id id() const { return i; }
  template <typename K> bool hasAttribute(const K & k) const { return a.count(attribute_key(k)) != 0; }
  template <typename K> Attribute attribute(const K & k) const
  {
    auto it = a.find(attribute_key(k));
    if (it == a.end()) throw NoSuchPrimitiveError("no attribute");
    return it->second;
  }
  LineStrings3d refers;
  Optional<LineString3d> stop_line;
  template <typename T> std::vector<T> getParameters(const std::string & role) const { return role == "refers" ? std::vector<T>(refers.begin(), refers.end()) : std::vector<T>(); }
};
struct TrafficLight : RegulatoryElement
{
  using Ptr = std::shared_ptr<TrafficLight>;
  using ConstPtr = std::shared_ptr<const TrafficLight>;
  static constexpr char RuleName[] = "traffic_light";
  Optional<LineString3d> stopLine() const { return stop_line; }
  std::vector<LineStringOrPolygon3d> trafficLights() const { return {refers.begin(), refers.end()}; }
};
namespace autoware
{
struct AutowareTrafficLight : TrafficLight
{
  using Ptr = std::shared_ptr<AutowareTrafficLight>;
  using ConstPtr = std::shared_ptr<const AutowareTrafficLight>;
  LineStrings3d bulbs;
  LineStrings3d lightBulbs() const { return bulbs; }
};
struct DetectionArea : RegulatoryElement { using ConstPtr = std::shared_ptr<const DetectionArea>; };
}  // namespace autoware
using AutowareTrafficLightConstPtr = std::shared_ptr<const autoware::AutowareTrafficLight>;
using DetectionAreaConstPtr = std::shared_ptr<const autoware::DetectionArea>;
struct TrafficSign : RegulatoryElement
{
  std::string sign = "stop_sign";
  std::string type() const { return sign; }
  LineStrings3d refLines() const { return stop_line ? LineStrings3d{*stop_line} : LineStrings3d{}; }
};
struct RightOfWay : RegulatoryElement
{
  std::vector<Lanelet> right_of_way, yielding;
  std::vector<Lanelet> rightOfWayLanelets() const;
};

struct LaneletData : Primitive
{
  LineString3d left, right, center;
  std::vector<RegulatoryElement::Ptr> elements;
};
struct Lanelet : Handle<LaneletData>
{
  Lanelet() = default;
  Lanelet(Id id, const LineString3d & l, const LineString3d & r) : Handle(id)
  {
    d->left = l;
    d->right = r;
    std::vector<Point3d> c;
    const std::size_t n = std::min(l.size(), r.size());
    for (std::size_t k = 0; k < n; ++k) {
      auto p = (l[k].basicPoint() + r[k].basicPoint()) / 2;
      c.emplace_back(0, p.x(), p.y(), p.z());
    }
    d->center = LineString3d(0, c);
  }
  LineString3d leftBound() const { return d->left; }
  LineString3d rightBound() const { return d->right; }
  LineString3d centerline() const { return d->center; }
  CompoundPolygon3d polygon3d() const
  {
    CompoundPolygon3d p(d->left.begin(), d->left.end());
    std::vector<Point3d> r(d->right.begin(), d->right.end());
    p.insert(p.end(), r.rbegin(), r.rend());
    return p;
  }
  template <typename T> std::vector<std::shared_ptr<T>> regulatoryElementsAs() const
  {
    std::vector<std::shared_ptr<T>> out;
    for (auto & e : d->elements) if (auto p = std::dynamic_pointer_cast<T>(e)) out.push_back(p);
    return out;
  }
};
inline std::vector<Lanelet> RightOfWay::rightOfWayLanelets() const { return right_of_way; }
using ConstLanelet = Lanelet;
using Lanelets = std::vector<Lanelet>;
using ConstLanelets = Lanelets;

template <typename T, typename GetId> struct Layer
{
  std::map<Id, T> items;
  struct Iter
  {
    typename std::map<Id, T>::const_iterator it;
    const T & operator*() const { return it->second; }
    const T * operator->() const { return &it->second; }
    Iter & operator++() { ++it; return *this; }
    bool operator!=(const Iter & o) const { return it != o.it; }
    bool operator==(const Iter & o) const { return it == o.it; }
  };
  Iter begin() const { return {items.begin()}; }
  Iter end() const { return {items.end()}; }
  std::size_t size() const { return items.size(); }
  bool exists(Id id) const { return items.count(id) != 0; }
  T get(Id id) const
  {
    auto it = items.find(id);
    if (it == items.end()) throw NoSuchPrimitiveError("Failed to lookup element with id " + std::to_string(id));
    return it->second;
  }
  void add(Id id, const T & t) { items[id] = t; }
};
struct LaneletMap
{
  Layer<Lanelet, int> laneletLayer;
  Layer<LineString3d, int> lineStringLayer;
  Layer<RegulatoryElement::Ptr, int> regulatoryElementLayer;
};
using LaneletMapPtr = std::shared_ptr<LaneletMap>;
using LaneletMapConstPtr = std::shared_ptr<const LaneletMap>;

namespace geometry
{
inline bool inside_polygon(const CompoundPolygon3d & p, const BasicPoint2d & q)
{
  bool in = false;
  for (std::size_t i = 0, j = p.size() - 1; i < p.size(); j = i++) {
    if (((p[i].y() > q.y()) != (p[j].y() > q.y())) && (q.x() < (p[j].x() - p[i].x()) * (q.y() - p[i].y()) / (p[j].y() - p[i].y()) + p[i].x())) in = !in;
  }
  return in;
}
inline bool inside(const Lanelet & l, const BasicPoint2d & q) { return inside_polygon(l.polygon3d(), q); }
inline double distance_segment(const BasicPoint2d & q, double ax, double ay, double bx, double by)
{
  const double dx = bx - ax, dy = by - ay, n = dx * dx + dy * dy;
  double t = n > 0 ? ((q.x() - ax) * dx + (q.y() - ay) * dy) / n : 0;
  t = std::max(0., std::min(1., t));
  return std::hypot(q.x() - ax - t * dx, q.y() - ay - t * dy);
}
inline double distance2d(const Lanelet & l, const BasicPoint2d & q)
{
  const auto p = l.polygon3d();
  if (inside_polygon(p, q)) return 0;
  double best = 1e300;
  for (std::size_t i = 0, j = p.size() - 1; i < p.size(); j = i++) best = std::min(best, distance_segment(q, p[j].x(), p[j].y(), p[i].x(), p[i].y()));
  return best;
}
template <typename L> std::vector<std::pair<double, Lanelet>> findNearest(const L & layer, const BasicPoint2d & q, unsigned count)
{
  std::vector<std::pair<double, Lanelet>> all;
  for (const auto & l : layer) all.emplace_back(distance2d(l, q), l);
  std::stable_sort(all.begin(), all.end(), [](auto & x, auto & y) { return x.first < y.first; });
  if (all.size() > count) all.resize(count);
  return all;
}
}  // namespace geometry

namespace units
{
struct KmHQuantity { double v; explicit KmHQuantity(double x = 0) : v(x) {} double value() const { return v; } };
}  // namespace units
using Velocity = units::KmHQuantity;

namespace traffic_rules
{
struct SpeedLimitInformation { double speedLimit; bool isMandatory = true; };
enum class LaneChangeType { ToRight, ToLeft, Both, None };
struct TrafficRules
{
  std::string who, where;
  virtual ~TrafficRules() = default;
  bool pedestrian() const { return who == Participants::Pedestrian; }
  bool canPass(const Lanelet & l) const
  {
    const auto s = l.attributeOr("subtype", "road");
    const bool foot = s == "crosswalk" || s == "walkway";
    if (pedestrian()) return foot;
    return s == "road" || (s == "road_shoulder" && where != Locations::Germany);
  }
  bool canChangeLane(const Lanelet & from, const Lanelet & to) const
  {
    if (from.attributeOr("lane_change", "yes") == "no" || !canPass(from) || !canPass(to)) return false;
    return from.leftBound() == to.rightBound() || from.rightBound() == to.leftBound();
  }
  SpeedLimitInformation speedLimit(const Lanelet & l) const { return {std::stod(l.attributeOr("speed_limit", "50"))}; }
};
struct GenericTrafficRules : TrafficRules
{
  const std::string & participant() const { return who; }
  using TrafficRules::canPass;
  virtual Optional<bool> canPass(const std::string &, const std::string &) const { return boost::none; }
  virtual LaneChangeType laneChangeType(const ConstLineString3d &, bool) const { return LaneChangeType::Both; }
};
struct GermanVehicle : GenericTrafficRules {};
using TrafficRulesPtr = std::shared_ptr<TrafficRules>;
using TrafficRulesUPtr = std::unique_ptr<TrafficRules>;
struct TrafficRulesFactory
{
  static TrafficRulesPtr create(const std::string & location, const std::string & participant) { auto r = std::make_shared<TrafficRules>(); r->where = location; r->who = participant; return r; }
};
}  // namespace traffic_rules

namespace routing
{
using RoutingCostId = std::uint16_t;
struct LaneletPath : std::vector<Lanelet> { using std::vector<Lanelet>::vector; };
struct Route
{
  LaneletPath path;
  const LaneletPath & shortestPath() const { return path; }
};
struct RoutingGraph
{
  std::map<Id, Lanelet> lanelets;
  std::map<Id, Lanelets> next, prev;
  std::map<Id, Lanelet> l_, r_;
  using ConstPtr = std::shared_ptr<const RoutingGraph>;
  static std::shared_ptr<const RoutingGraph> build(const LaneletMap & map, const traffic_rules::TrafficRules & rules)
  {
    auto g = std::make_shared<RoutingGraph>();
    for (const auto & l : map.laneletLayer) if (rules.canPass(l)) g->lanelets[l.id()] = l;
    auto near = [](const Point3d & a, const Point3d & b) { return (a.basicPoint() - b.basicPoint()).norm() < 1e-6; };
    for (auto & [i, a] : g->lanelets) {
      for (auto & [j, b] : g->lanelets) {
        if (i == j) continue;
        if (near(a.leftBound().back(), b.leftBound().front()) && near(a.rightBound().back(), b.rightBound().front())) { g->next[i].push_back(b); g->prev[j].push_back(a); }
        if (a.leftBound() == b.rightBound() && rules.canChangeLane(a, b)) g->l_[i] = b;
        if (a.rightBound() == b.leftBound() && rules.canChangeLane(a, b)) g->r_[i] = b;
      }
    }
    return g;
  }
  static Lanelets get(const std::map<Id, Lanelets> & m, Id i) { auto it = m.find(i); return it == m.end() ? Lanelets() : it->second; }
  static Optional<Lanelet> get(const std::map<Id, Lanelet> & m, Id i) { auto it = m.find(i); if (it == m.end()) return boost::none; return it->second; }
  Lanelets following(const Lanelet & l, bool with_lane_changes = false) const
  {
    auto out = get(next, l.id());
    if (with_lane_changes) { if (auto x = left(l)) out.push_back(*x); if (auto x = right(l)) out.push_back(*x); }
    return out;
  }
  Lanelets previous(const Lanelet & l, bool = false) const { return get(prev, l.id()); }
  Optional<Lanelet> left(const Lanelet & l) const { return get(l_, l.id()); }
  Optional<Lanelet> right(const Lanelet & l) const { return get(r_, l.id()); }
  Lanelets lefts(const Lanelet & l) const { Lanelets out; for (auto x = left(l); x; x = left(*x)) out.push_back(*x); return out; }
  Lanelets rights(const Lanelet & l) const { Lanelets out; for (auto x = right(l); x; x = right(*x)) out.push_back(*x); return out; }
  static double length(const Lanelet & l)
  {
    double s = 0;
    auto c = l.centerline();
    for (std::size_t k = 1; k < c.size(); ++k) s += (c[k].basicPoint() - c[k - 1].basicPoint()).norm();
    return s;
  }
  Optional<Route> getRoute(const Lanelet & from, const Lanelet & to, RoutingCostId = 0, bool with_lane_changes = true) const
  {
    if (!lanelets.count(from.id()) || !lanelets.count(to.id())) return boost::none;
    std::map<Id, double> dist{{from.id(), 0}};
    std::map<Id, Id> back;
    std::set<std::pair<double, Id>> q{{0, from.id()}};
    while (!q.empty()) {
      auto [c, i] = *q.begin();
      q.erase(q.begin());
      if (i == to.id()) {
        Route r;
        for (Id k = i;; k = back[k]) { r.path.push_back(lanelets.at(k)); if (k == from.id()) break; }
        std::reverse(r.path.begin(), r.path.end());
        return r;
      }
      auto relax = [&, c = c, i = i](const Lanelet & n, double cost) {
        auto it = dist.find(n.id());
        if (it == dist.end() || c + cost < it->second) { if (it != dist.end()) q.erase({it->second, n.id()}); dist[n.id()] = c + cost; back[n.id()] = i; q.insert({c + cost, n.id()}); }
      };
      const auto & l = lanelets.at(i);
      for (auto & n : following(l)) relax(n, length(l));
      if (with_lane_changes) { if (auto n = left(l)) relax(*n, 2); if (auto n = right(l)) relax(*n, 2); }
    }
    return boost::none;
  }
  static bool overlap(const Lanelet & a, const Lanelet & b)
  {
    const auto p = a.polygon3d(), q = b.polygon3d();
    auto center = [](const Lanelet & l) { auto c = l.centerline(); return c; };
    for (auto & x : center(a)) if (geometry::inside_polygon(q, BasicPoint2d(x.x(), x.y()))) return true;
    for (auto & x : center(b)) if (geometry::inside_polygon(p, BasicPoint2d(x.x(), x.y()))) return true;
    auto cross = [](double ax, double ay, double bx, double by) { return ax * by - ay * bx; };
    auto hit = [&](const Point3d & a1, const Point3d & a2, const Point3d & b1, const Point3d & b2) {
      const double d = cross(a2.x() - a1.x(), a2.y() - a1.y(), b2.x() - b1.x(), b2.y() - b1.y());
      if (std::abs(d) < 1e-12) return false;
      const double t = cross(b1.x() - a1.x(), b1.y() - a1.y(), b2.x() - b1.x(), b2.y() - b1.y()) / d;
      const double u = cross(b1.x() - a1.x(), b1.y() - a1.y(), a2.x() - a1.x(), a2.y() - a1.y()) / d;
      return t > 1e-9 && t < 1 - 1e-9 && u > 1e-9 && u < 1 - 1e-9;
    };
    for (std::size_t i = 0, j = p.size() - 1; i < p.size(); j = i++)
      for (std::size_t k = 0, m = q.size() - 1; k < q.size(); m = k++) if (hit(p[j], p[i], q[m], q[k])) return true;
    return false;
  }
  Lanelets conflicting(const Lanelet & l) const
  {
    Lanelets out;
    for (auto & [i, o] : lanelets) if (i != l.id() && overlap(l, o)) out.push_back(o);
    return out;
  }
};
using RoutingGraphPtr = std::shared_ptr<RoutingGraph>;
using RoutingGraphConstPtr = std::shared_ptr<const RoutingGraph>;
struct RoutingGraphContainer
{
  std::vector<RoutingGraphConstPtr> graphs;
  explicit RoutingGraphContainer(const std::vector<RoutingGraphConstPtr> & g) : graphs(g) {}
  Lanelets conflictingInGraph(const Lanelet & l, std::size_t k, double = 4) const { return graphs.at(k)->conflicting(l); }
};
}  // namespace routing

namespace matching
{
using Pose2d = Eigen::Transform<double, 2, Eigen::Isometry, Eigen::DontAlign>;
struct Hull2d : BasicPolygon2d { Hull2d(std::initializer_list<BasicPoint2d> l) : BasicPolygon2d(l) {} };
struct Object2d
{
  Id objectId = 0;
  Pose2d pose = Pose2d::Identity();
  BasicPolygon2d absoluteHull;
};
struct LaneletMatch { Lanelet lanelet; double distance; };
inline std::vector<LaneletMatch> getDeterministicMatches(const LaneletMap & map, const Object2d & o, double max_distance)
{
  std::vector<LaneletMatch> out;
  for (const auto & l : map.laneletLayer) {
    double best = 1e300;
    for (auto & p : o.absoluteHull) best = std::min(best, geometry::distance2d(l, p));
    best = std::min(best, geometry::distance2d(l, BasicPoint2d(o.pose.translation())));
    if (best <= max_distance) out.push_back({l, best});
  }
  std::stable_sort(out.begin(), out.end(), [](auto & a, auto & b) { return a.distance < b.distance; });
  return out;
}
inline std::vector<LaneletMatch> removeNonRuleCompliantMatches(const std::vector<LaneletMatch> & m, const traffic_rules::TrafficRulesPtr & rules)
{
  std::vector<LaneletMatch> out;
  for (auto & x : m) if (rules->canPass(x.lanelet)) out.push_back(x);
  return out;
}
}  // namespace matching

namespace utils
{
inline double getLaneletLength2d(const Lanelet & l)
{
  double s = 0;
  auto c = l.centerline();
  for (std::size_t k = 1; k < c.size(); ++k) s += std::hypot(c[k].x() - c[k - 1].x(), c[k].y() - c[k - 1].y());
  return s;
}
inline Lanelets getConflictingLanelets(const routing::RoutingGraphConstPtr & g, const Lanelet & l) { return g->conflicting(l); }
template <typename C, typename F> bool anyOf(const C & c, F f) { return std::any_of(c.begin(), c.end(), f); }
namespace query
{
inline ConstLanelets laneletLayer(const LaneletMapConstPtr & m) { ConstLanelets out; for (const auto & l : m->laneletLayer) out.push_back(l); return out; }
inline ConstLanelets subtype(const ConstLanelets & ls, const std::string & s) { ConstLanelets out; for (auto & l : ls) if (l.attributeOr("subtype", "") == s) out.push_back(l); return out; }
inline ConstLanelets roadLanelets(const ConstLanelets & l) { return subtype(l, "road"); }
inline ConstLanelets crosswalkLanelets(const ConstLanelets & l) { return subtype(l, "crosswalk"); }
inline ConstLanelets walkwayLanelets(const ConstLanelets & l) { return subtype(l, "walkway"); }
inline std::vector<AutowareTrafficLightConstPtr> autowareTrafficLights(const ConstLanelets & ls)
{
  std::vector<AutowareTrafficLightConstPtr> out;
  std::set<Id> seen;
  for (auto & l : ls) for (auto & e : l.regulatoryElementsAs<autoware::AutowareTrafficLight>()) if (seen.insert(e->id()).second) out.push_back(e);
  return out;
}
inline ConstLineStrings3d stopLinesLanelets(const ConstLanelets &) { return {}; }
inline std::vector<DetectionAreaConstPtr> detectionAreas(const ConstLanelets &) { return {}; }
inline ConstLineStrings3d getAllParkingSpaces(const LaneletMapConstPtr &) { return {}; }
inline ConstPolygons3d getAllParkingLots(const LaneletMapConstPtr &) { return {}; }
}  // namespace query
}  // namespace utils

namespace visualization
{
using A = visualization_msgs::msg::MarkerArray;
template <typename... Ts> A laneletsBoundaryAsMarkerArray(const Ts &...) { return {}; }
template <typename... Ts> A laneletsAsTriangleMarkerArray(const Ts &...) { return {}; }
template <typename... Ts> A laneletDirectionAsMarkerArray(const Ts &...) { return {}; }
template <typename... Ts> A lineStringsAsMarkerArray(const Ts &...) { return {}; }
template <typename... Ts> A autowareTrafficLightsAsMarkerArray(const Ts &...) { return {}; }
template <typename... Ts> A detectionAreasAsMarkerArray(const Ts &...) { return {}; }
template <typename... Ts> A parkingLotsAsMarkerArray(const Ts &...) { return {}; }
template <typename... Ts> A parkingSpacesAsMarkerArray(const Ts &...) { return {}; }
template <typename... Ts> A generateLaneletIdMarker(const Ts &...) { return {}; }
}  // namespace visualization
}  // namespace lanelet
