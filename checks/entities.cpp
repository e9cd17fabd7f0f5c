// C25: conditions on entities.  C26: actions on entities.  (openscenario_interpreter with traffic_simulator)
#include "osc.hpp"
#include <traffic_simulator_msgs/msg/entity_status_with_trajectory_array.hpp>

using namespace osc;

namespace
{
constexpr double infinity = std::numeric_limits<double>::infinity();
using Pose = geometry_msgs::msg::Pose;

// ---- what moves the entities: a behaviour that follows a list of legs
struct Leg { double from, x, y, z, yaw, vx, vy, vz, ax; };
std::map<std::string, std::vector<Leg>> * legs = nullptr;
struct Mover : entity_behavior::DoNothingBehavior
{
  std::string entity;
  void configure(const rclcpp::Logger & logger) override { entity = logger.get_name(); DoNothingBehavior::configure(logger); }
  void update(double current, double step) override
  {
    auto s = getCanonicalizedEntityStatus();
    if (!s) return;
    auto status = static_cast<traffic_simulator::EntityStatus>(*s);
    auto it = legs->find(status.name);
    if (it != legs->end()) {
      const Leg * leg = &it->second.front();
      for (auto & l : it->second) if (l.from <= current) leg = &l;
      const double t = std::max(0.0, current + step - leg->from);
      status.pose = pose(leg->x + std::cos(leg->yaw) * leg->vx * t, leg->y + std::sin(leg->yaw) * leg->vx * t, leg->yaw);
      status.pose.position.z = leg->z;
      status.action_status.twist.linear.x = leg->vx;
      status.action_status.twist.linear.y = leg->vy;
      status.action_status.twist.linear.z = leg->vz;
      status.action_status.accel.linear.x = leg->ax;
    }
    status.time = current + step;
    status.lanelet_pose_valid = false;
    s->set(status, {}, status.bounding_box.dimensions.y * 0.5 + 1.0);
  }
};

// ---- what is known of the world
struct Truth { double x, y, z, yaw, vx, vy, vz, ax, cx, cy, cz, l, w, h; double still = 0; };
using World = std::map<std::string, Truth>;
struct V { double x, y, z; };
V local(const Truth & f, V p)
{
  const double dx = p.x - f.x, dy = p.y - f.y;
  return {std::cos(f.yaw) * dx + std::sin(f.yaw) * dy, -std::sin(f.yaw) * dx + std::cos(f.yaw) * dy, p.z - f.z};
}
V global(const Truth & f, V p) { return {f.x + std::cos(f.yaw) * p.x - std::sin(f.yaw) * p.y, f.y + std::sin(f.yaw) * p.x + std::cos(f.yaw) * p.y, f.z + p.z}; }
double length(V v) { return std::sqrt(v.x * v.x + v.y * v.y + v.z * v.z); }
Truth point(V p) { Truth t{}; t.x = p.x; t.y = p.y; t.z = p.z; return t; }
std::vector<V> corners(const Truth & t)
{
  std::vector<V> c;
  for (auto [a, b] : {std::pair{1, 1}, {-1, 1}, {-1, -1}, {1, -1}}) c.push_back(global(t, {t.cx + a * t.l / 2, t.cy + b * t.w / 2, 0}));
  return c;
}
// > 0: apart by that much along some axis; < 0: overlapping by that much
double apart(const Truth & a, const Truth & b)
{
  double best = -infinity;
  const auto p = corners(a), q = corners(b);
  for (double yaw : {a.yaw, a.yaw + M_PI / 2, b.yaw, b.yaw + M_PI / 2}) {
    double lo[2] = {infinity, infinity}, hi[2] = {-infinity, -infinity};
    for (int i = 0; i < 2; ++i) for (auto & v : i ? q : p) { const double d = std::cos(yaw) * v.x + std::sin(yaw) * v.y; lo[i] = std::min(lo[i], d); hi[i] = std::max(hi[i], d); }
    best = std::max(best, std::max(lo[1] - hi[0], lo[0] - hi[1]));
  }
  return best;
}
// the vectors from the point of a that is closest to b to that of b, in the frame of a; several if that is not unique
std::vector<V> gaps(const Truth & a, const Truth & b)
{
  std::vector<std::pair<double, V>> all;
  const auto p = corners(a), q = corners(b);
  auto to_edges = [&](const std::vector<V> & from, const std::vector<V> & to, double sign) {
    for (auto & v : from) for (int i = 0; i < 4; ++i) {
      const V & s = to[i], & e = to[(i + 1) % 4];
      const double ex = e.x - s.x, ey = e.y - s.y, n = ex * ex + ey * ey;
      const double t = n > 0 ? std::clamp(((v.x - s.x) * ex + (v.y - s.y) * ey) / n, 0.0, 1.0) : 0;
      const double gx = (s.x + t * ex - v.x) * sign, gy = (s.y + t * ey - v.y) * sign;
      all.push_back({std::hypot(gx, gy), V{std::cos(a.yaw) * gx + std::sin(a.yaw) * gy, -std::sin(a.yaw) * gx + std::cos(a.yaw) * gy, 0}});
    }
  };
  to_edges(p, q, 1);
  to_edges(q, p, -1);
  double least = infinity;
  for (auto & g : all) least = std::min(least, g.first);
  std::vector<V> out;
  for (auto & g : all) if (g.first < least + 1e-6) out.push_back(g.second);
  return out;
}

// ---- three-valued truth
enum Tri { NO, YES, UNKNOWN };
Tri both(Tri a, Tri b) { return a == NO || b == NO ? NO : a == YES && b == YES ? YES : UNKNOWN; }
Tri either(Tri a, Tri b) { return a == YES || b == YES ? YES : a == NO && b == NO ? NO : UNKNOWN; }
const std::vector<const char *> rules{"equalTo", "greaterThan", "lessThan", "greaterOrEqual", "lessOrEqual", "notEqualTo"};
struct Value { std::vector<double> may; bool exact = false, known = true; };   // nothing in `may`: there is no value
Value none() { return {}; }
Value unknown() { return {{}, false, false}; }
Value one(double v, bool exact = false) { return {{v}, exact, true}; }
Tri compare(const Value & v, int rule, double threshold)
{
  if (!v.known) return UNKNOWN;
  if (v.may.empty()) return rule == 5 ? UNKNOWN : NO;
  bool yes = false, no = false;
  for (double x : v.may) {
    if (!v.exact && std::abs(x - threshold) < 1e-6) return UNKNOWN;
    const bool b = rule == 0 ? x == threshold : rule == 1 ? x > threshold : rule == 2 ? x < threshold : rule == 3 ? x >= threshold : rule == 4 ? x <= threshold : x != threshold;
    (b ? yes : no) = true;
  }
  return yes && no ? UNKNOWN : yes ? YES : NO;
}

const std::vector<const char *> dimensions{"longitudinal", "lateral", "vertical"};
const std::vector<const char *> distance_types{"longitudinal", "lateral", "euclidianDistance"};
struct Place { enum { WORLD, LANE, OBJECT } kind = WORLD; V p{}; int lane = 0; double s = 0, offset = 0; std::string of; };
struct Cond
{
  enum Kind { SPEED, ACCELERATION, STILL, RELATIVE_SPEED, HEADWAY, TTC, COLLISION, REACH, DISTANCE, RELATIVE_DISTANCE, CLEARANCE, KINDS } kind;
  std::string name;
  bool all = false;
  std::vector<std::string> triggering;
  int rule = 1;
  double value = 0;
  int direction = -1;                                   // longitudinal, lateral, vertical
  std::string other;                                    // entity; for collisions also a type
  bool by_type = false, freespace = false, on_lane = false, shortest = false, to_entity = true;
  int distance = 2;
  Place place;
  double backward = 0, forward = 0;
  std::vector<std::pair<std::optional<int>, std::optional<int>>> ranges;
  std::vector<std::string> others;
  u64 yes = 0, no = 0;
};

struct Scene
{
  bool road = false, standard = false, slope = false;        // the last two: parameters of the interpreter
  struct Member { std::string type; bool always = true; };
  std::map<std::string, Member> objects;
  std::map<std::string, std::vector<std::string>> groups;
  std::map<std::string, std::string> group_types;      // groups by type
  std::vector<std::string> members(const std::string & n) const { auto it = groups.find(n); return it == groups.end() ? std::vector<std::string>{n} : it->second; }

  static std::optional<int> row(const Truth & t)
  {
    if (t.x < 2 || t.x > 298 || std::abs(std::sin(t.yaw)) > 0.01 || std::cos(t.yaw) < 0) return {};
    if (std::abs(t.y - 1.75) < 1.2) return 0;
    if (std::abs(t.y - 5.25) < 1.2) return 1;
    return {};
  }
  std::optional<Truth> where(const World & w, const Place & p) const
  {
    if (p.kind == Place::OBJECT) {
      auto it = w.find(p.of);
      if (it == w.end()) return {};
      return point(global(it->second, p.p));
    }
    return point(p.p);
  }
  double far(const V & v) const { return slope ? length(v) : std::hypot(v.x, v.y); }
  // the distance from a to b by the kinds the conditions know
  Value distance(const Cond & c, const Truth & a, const Truth & b, bool signed_too) const
  {
    if (!c.on_lane) {
      if (!c.freespace) {
        const V d = local(a, {b.x, b.y, b.z});
        if (c.distance == 2) return one(far(d));
        const double v = c.distance == 0 ? d.x : d.y;
        return signed_too ? Value{{v, std::abs(v)}} : one(std::abs(v));
      }
      const double g = apart(a, b);
      if (std::abs(g) < 1e-6) return unknown();
      if (g < 0) return unknown();                      // overlapping: nothing is promised but that it does not end the scenario
      Value v;
      for (auto & d : gaps(a, b)) {
        const double x = c.distance == 0 ? d.x : c.distance == 1 ? d.y : std::hypot(d.x, d.y);
        v.may.push_back(std::abs(x));
        if (signed_too) v.may.push_back(x), v.may.push_back(-x);
      }
      return v;
    }
    const auto ra = row(a), rb = row(b);
    if (!ra || !rb) return unknown();
    if (*ra != *rb && !c.shortest) return none();        // no way without changing lanes
    if (c.distance == 1 && std::floor(b.x / 50) < std::floor(a.x / 50)) return unknown();  // to the side of what is ahead only
    const double d = c.distance == 0 ? b.x - a.x : b.y - a.y;
    double v = d;
    if (c.freespace) {
      if (std::abs(d) < 1e-6) return unknown();
      const auto half = [&](const Truth & t) { return c.distance == 0 ? t.l / 2 : t.w / 2; };
      const auto center = [&](const Truth & t) { return c.distance == 0 ? t.cx : t.cy; };
      const double gap = std::abs(d + center(b) - center(a)) - half(a) - half(b);
      // edges of the boxes as seen from the reference points
      const double front = d > 0 ? center(a) + half(a) : half(a) - center(a), back = d > 0 ? half(b) - center(b) : half(b) + center(b);
      if (gap < 1e-6) return unknown();
      v = d > 0 ? d - front - back : d + front + back;
    }
    return one(c.shortest ? std::abs(v) : v);
  }
  Value value(const Cond & c, const World & w, const std::string & name) const
  {
    auto it = w.find(name);
    const Truth * other = nullptr;
    if (!c.other.empty() && w.count(c.other)) other = &w.at(c.other);
    if (it == w.end()) return none();
    const Truth & t = it->second;
    switch (c.kind) {
      case Cond::SPEED:
        if (c.direction < 0) return standard ? one(length({t.vx, t.vy, t.vz})) : one(t.vx, true);
        return one(c.direction == 0 ? t.vx : c.direction == 1 ? t.vy : t.vz, true);
      case Cond::ACCELERATION: return one(t.ax, true);
      case Cond::STILL: return one(t.still);
      case Cond::RELATIVE_SPEED: case Cond::TTC: {
        if (c.kind == Cond::TTC && !c.to_entity) {
          const auto target = where(w, c.place);
          if (!target) return unknown();
          if (c.freespace || c.on_lane) return unknown();
          const V d = local(t, {target->x, target->y, target->z});
          const double speed = c.distance == 2 ? length({t.vx, t.vy, t.vz}) : c.distance == 0 ? t.vx : t.vy, gap = c.distance == 2 ? far(d) : c.distance == 0 ? d.x : d.y;
          if (gap < 1e-3 || (speed == 0 && std::signbit(speed)) || (c.distance == 2 && t.vx * d.x + t.vy * d.y + t.vz * d.z <= 0 && speed > 0)) return unknown();
          return one(speed > 0 ? gap / speed : infinity, speed <= 0);
        }
        if (!other) return none();
        const double yaw = t.yaw - other->yaw;
        const V v{std::cos(yaw) * t.vx - other->vx, std::sin(yaw) * t.vx, 0};
        const double speed = c.direction < 0 ? length(v) : c.direction == 0 ? v.x : c.direction == 1 ? v.y : v.z;
        if (c.kind == Cond::RELATIVE_SPEED) return one(speed);
        // time to collision: only of those that approach
        const V seen = local(*other, {t.x, t.y, t.z});
        if (c.distance == 2 && seen.x * v.x + seen.y * v.y + seen.z * v.z >= -1e-9) return unknown();
        if (c.distance == 0 && seen.x > -1e-3) return unknown();
        if (c.distance == 1 && seen.y > -1e-3) return unknown();
        if (c.distance != 2 && std::abs(speed) < 1e-6) return unknown();
        auto gap = distance(c, t, *other, false);
        for (auto & g : gap.may) { if (g < 1e-3) return unknown(); g = speed > 0 ? g / speed : infinity; }
        gap.exact = speed <= 0;
        return gap;
      }
      case Cond::HEADWAY: {
        if (!other) return none();
        const double x = local(*other, {t.x, t.y, t.z}).x;
        if (std::abs(x) < 1e-6) return unknown();
        if (x > 0) return none();                        // it is ahead of the other
        if (t.vx == 0) return std::signbit(t.vx) ? unknown() : one(infinity, true);
        return t.vx < 0 ? unknown() : one(-x / t.vx);
      }
      case Cond::REACH: case Cond::DISTANCE: {
        const auto target = where(w, c.place);
        if (!target) return c.kind == Cond::REACH && c.place.kind == Place::OBJECT ? none() : unknown();
        if (c.kind == Cond::REACH) return one(far(local(t, {target->x, target->y, target->z})));
        return distance(c, t, *target, !c.on_lane);
      }
      case Cond::RELATIVE_DISTANCE: return other ? distance(c, t, *other, false) : none();
      default: return unknown();
    }
  }
  Tri clear(const Cond & c, const World & w, const std::string & a, const std::string & b) const
  {
    auto i = w.find(a), j = w.find(b);
    if (i == w.end() || j == w.end() || a == b) return UNKNOWN;
    const auto ra = row(i->second), rb = row(j->second);
    if (!ra || !rb) return UNKNOWN;
    bool in = c.ranges.empty();
    for (auto & r : c.ranges) in = in || ((!r.first || *r.first <= *rb - *ra) && (!r.second || *rb - *ra <= *r.second));
    Cond d;
    d.on_lane = d.shortest = true;
    d.distance = 0;
    d.freespace = c.freespace;
    const auto v = distance(d, i->second, j->second, false);
    if (!in) return YES;
    if (!v.known || v.may.empty()) return UNKNOWN;
    const double limit = j->second.x < i->second.x ? c.backward : c.forward;
    return std::abs(v.may[0] - limit) < 1e-6 ? UNKNOWN : v.may[0] > limit ? YES : NO;
  }
  Tri of(const Cond & c, const World & w, const std::string & object) const
  {
    if (c.kind == Cond::COLLISION) {
      Tri r = NO;
      std::vector<std::string> others{c.other};
      if (c.by_type) { others.clear(); for (auto & [n, m] : objects) if (m.type == c.other) others.push_back(n); }
      for (auto & o : others) {
        auto i = w.find(object), j = w.find(o);
        if (i == w.end() || j == w.end() || o == object) continue;
        const double g = apart(i->second, j->second), up = std::abs(i->second.z + i->second.cz - j->second.z - j->second.cz) - (i->second.h + j->second.h) / 2;
        r = either(r, both(std::abs(g) < 1e-6 ? UNKNOWN : g < 0 ? YES : NO, std::abs(up) < 1e-6 ? UNKNOWN : up < 0 ? YES : NO));
      }
      return r;
    }
    if (c.kind == Cond::CLEARANCE) {
      Tri r = YES;
      if (!c.others.empty()) { for (auto & o : c.others) for (auto & m : members(o)) r = both(r, clear(c, w, object, m)); }
      else for (auto & [n, m] : objects) if (w.count(n) && std::find(c.triggering.begin(), c.triggering.end(), n) == c.triggering.end()) r = both(r, clear(c, w, object, n));
      return r;
    }
    return compare(value(c, w, object), c.rule, c.value);
  }
  Tri evaluate(const Cond & c, const World & w) const
  {
    Tri r = c.all ? YES : NO;
    for (auto & t : c.triggering) {
      Tri m = c.kind == Cond::COLLISION && members(t).empty() ? UNKNOWN : YES;
      for (auto & o : members(t)) m = both(m, of(c, w, o));
      r = c.all ? both(r, m) : either(r, m);
    }
    return r;
  }
  // ---- as text
  static std::string text(const Place & p)
  {
    if (p.kind == Place::WORLD) return "<Position><WorldPosition x=\"" + num(p.p.x) + "\" y=\"" + num(p.p.y) + "\" z=\"" + num(p.p.z) + "\"/></Position>";
    if (p.kind == Place::LANE) return lane_position(p.lane, p.s, p.offset);
    return "<Position><RelativeObjectPosition entityRef=\"" + p.of + "\" dx=\"" + num(p.p.x) + "\" dy=\"" + num(p.p.y) + "\" dz=\"" + num(p.p.z) + "\"/></Position>";
  }
  static std::string boolean(bool b) { return b ? "true" : "false"; }
  static std::string text(const Cond & c)
  {
    const std::string rule = " rule=\"" + std::string(rules[c.rule]) + "\" value=\"" + num(c.value) + "\"";
    const std::string direction = c.direction < 0 ? "" : std::string(" direction=\"") + dimensions[c.direction] + "\"";
    const std::string how = " freespace=\"" + boolean(c.freespace) + "\" relativeDistanceType=\"" + distance_types[c.distance] + "\"" + (c.on_lane ? " coordinateSystem=\"lane\"" : "") + (c.shortest ? " routingAlgorithm=\"shortest\"" : "");
    const std::string ref = " entityRef=\"" + c.other + "\"";
    std::string x;
    switch (c.kind) {
      case Cond::SPEED: x = "<SpeedCondition" + rule + direction + "/>"; break;
      case Cond::ACCELERATION: x = "<AccelerationCondition" + rule + "/>"; break;
      case Cond::STILL: x = "<StandStillCondition duration=\"" + num(c.value) + "\"/>"; break;
      case Cond::RELATIVE_SPEED: x = "<RelativeSpeedCondition" + ref + rule + direction + "/>"; break;
      case Cond::HEADWAY: x = "<TimeHeadwayCondition" + ref + " alongRoute=\"false\" freespace=\"false\"" + rule + "/>"; break;
      case Cond::TTC: x = "<TimeToCollisionCondition" + rule + how + "><TimeToCollisionConditionTarget>" + (c.to_entity ? "<EntityRef" + ref + "/>" : text(c.place)) + "</TimeToCollisionConditionTarget></TimeToCollisionCondition>"; break;
      case Cond::COLLISION: x = c.by_type ? "<CollisionCondition><ByType type=\"" + c.other + "\"/></CollisionCondition>" : "<CollisionCondition><EntityRef" + ref + "/></CollisionCondition>"; break;
      case Cond::REACH: x = "<ReachPositionCondition tolerance=\"" + num(c.value) + "\">" + text(c.place) + "</ReachPositionCondition>"; break;
      case Cond::DISTANCE: x = "<DistanceCondition" + rule + how + ">" + text(c.place) + "</DistanceCondition>"; break;
      case Cond::RELATIVE_DISTANCE: x = "<RelativeDistanceCondition" + ref + rule + how + "/>"; break;
      case Cond::CLEARANCE:
        x = "<RelativeClearanceCondition distanceBackward=\"" + num(c.backward) + "\" distanceForward=\"" + num(c.forward) + "\" freeSpace=\"" + boolean(c.freespace) + "\" oppositeLanes=\"false\">";
        for (auto & r : c.ranges) x += "<RelativeLaneRange" + (r.first ? " from=\"" + std::to_string(*r.first) + "\"" : std::string()) + (r.second ? " to=\"" + std::to_string(*r.second) + "\"" : std::string()) + "/>";
        for (auto & o : c.others) x += "<EntityRef entityRef=\"" + o + "\"/>";
        x += "</RelativeClearanceCondition>";
        break;
      default: break;
    }
    std::string refs;
    for (auto & t : c.triggering) refs += "<EntityRef entityRef=\"" + t + "\"/>";
    return "<Condition name=\"" + c.name + "\" delay=\"0\" conditionEdge=\"none\"><ByEntityCondition><TriggeringEntities triggeringEntitiesRule=\"" + std::string(c.all ? "all" : "any") + "\">" + refs + "</TriggeringEntities><EntityCondition>" + x + "</EntityCondition></ByEntityCondition></Condition>";
  }
};

std::string pedestrian_body()
{
  return "<Pedestrian name=\"walker\" mass=\"70\" model=\"\" pedestrianCategory=\"pedestrian\"><BoundingBox><Center x=\"0\" y=\"0\" z=\"0.9\"/><Dimensions width=\"0.8\" length=\"0.6\" height=\"1.8\"/></BoundingBox><Properties/></Pedestrian>";
}
std::string box_body()
{
  return "<MiscObject name=\"box\" mass=\"10\" miscObjectCategory=\"obstacle\"><BoundingBox><Center x=\"0.25\" y=\"0\" z=\"0.5\"/><Dimensions width=\"1.5\" length=\"2\" height=\"1\"/></BoundingBox><Properties/></MiscObject>";
}
std::string selection(const std::string & name, const std::vector<std::string> & members, const std::string & type)
{
  std::string m;
  if (type.empty()) for (auto & x : members) m += "<EntityRef entityRef=\"" + x + "\"/>";
  else m = "<ByType objectType=\"" + type + "\"/>";
  return "<EntitySelection name=\"" + name + "\"><Members>" + m + "</Members></EntitySelection>";
}
std::string time_condition(const std::string & rule, double t) { return "<Condition name=\"\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><SimulationTimeCondition value=\"" + num(t) + "\" rule=\"" + rule + "\"/></ByValueCondition></Condition>"; }
std::string trigger(const std::string & conditions) { return "<StartTrigger><ConditionGroup>" + conditions + "</ConditionGroup></StartTrigger>"; }
std::string add_entity(const std::string & name, const std::string & position) { return "<EntityAction entityRef=\"" + name + "\"><AddEntityAction>" + position + "</AddEntityAction></EntityAction>"; }
std::string delete_entity(const std::string & name) { return "<EntityAction entityRef=\"" + name + "\"><DeleteEntityAction/></EntityAction>"; }
std::string event(const std::string & name, const std::string & actions, const std::string & trigger, int times = 1) { return "<Event name=\"" + name + "\" priority=\"parallel\" maximumExecutionCount=\"" + std::to_string(times) + "\">" + actions + trigger + "</Event>"; }
std::string action(const std::string & name, const std::string & content) { return "<Action name=\"" + name + "\">" + content + "</Action>"; }
std::string story(const std::string & name, const std::string & events, const std::vector<std::string> & actors = {})
{
  std::string a;
  for (auto & x : actors) a += "<EntityRef entityRef=\"" + x + "\"/>";
  return "<Story name=\"" + name + "\"><Act name=\"" + name + "_act\"><ManeuverGroup name=\"" + name + "_group\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\">" + a + "</Actors><Maneuver name=\"" + name + "_maneuver\">" + events + "</Maneuver></ManeuverGroup>" +
    trigger(time_condition("greaterThan", -1)) + "</Act></Story>";
}
Truth truth(const traffic_simulator_msgs::msg::EntityStatus & s)
{
  Truth t{};
  t.x = s.pose.position.x; t.y = s.pose.position.y; t.z = s.pose.position.z;
  const auto & q = s.pose.orientation;
  t.yaw = std::atan2(2 * (q.w * q.z + q.x * q.y), 1 - 2 * (q.y * q.y + q.z * q.z));
  const auto & v = s.action_status.twist.linear;
  t.vx = v.x; t.vy = v.y; t.vz = v.z;
  t.ax = s.action_status.accel.linear.x;
  t.cx = s.bounding_box.center.x; t.cy = s.bounding_box.center.y; t.cz = s.bounding_box.center.z;
  t.l = s.bounding_box.dimensions.x; t.w = s.bounding_box.dimensions.y; t.h = s.bounding_box.dimensions.z;
  return t;
}
double quarter(double lo, double hi) { return std::round((lo + (hi - lo) * static_cast<double>(w(1000)) / 1000) * 4) / 4; }
double real(double lo, double hi) { return lo + (hi - lo) * static_cast<double>(w(100000)) / 100000; }

struct Conditions
{
  Scene scene;
  double rate, factor, horizon;
  std::vector<std::string> names, present, refs;          // all, those that are never away, what a condition may refer to
  V center{};
  std::vector<Cond> conditions;

  V somewhere() const { return scene.road ? V{real(30, 130), wchance(1, 2) ? 1.75 : 5.25, 0} : V{center.x + real(-15, 15), center.y + real(-15, 15), wchance(1, 4) ? quarter(-2, 2) : 0}; }
  Leg leg(double from) const
  {
    const V p = somewhere();
    Leg l{from, p.x, p.y, p.z, 0, wchance(1, 3) ? 0 : quarter(-4, 8), wchance(1, 3) ? quarter(-2, 2) : 0, wchance(1, 5) ? quarter(-1, 1) : 0, wchance(1, 2) ? quarter(-8, 8) : 0};
    if (scene.road) l.y += real(-0.3, 0.3);
    else l.yaw = wchance(1, 3) ? 0 : real(-3.1, 3.1);
    return l;
  }
  Place place() const
  {
    Place p;
    const auto k = w(3);
    if (scene.road && k == 0) {
      p.kind = Place::LANE;
      p.lane = 1 + static_cast<int>(w(3));
      if (wchance(1, 2)) p.lane += 10;
      p.s = real(2, 48);
      p.offset = wchance(1, 2) ? 0 : real(-0.5, 0.5);
      p.p = {(p.lane % 10 - 1) * 50 + p.s, (p.lane > 10 ? 5.25 : 1.75) + p.offset, 0};
    } else if (k == 1) {
      p.kind = Place::OBJECT;
      p.of = present[w(present.size())];
      p.p = {quarter(-10, 10), quarter(-3, 3), 0};
    } else p.p = somewhere();
    return p;
  }
  Cond make(int i)
  {
    Cond c;
    c.kind = static_cast<Cond::Kind>(w(Cond::KINDS));
    if (c.kind == Cond::CLEARANCE && !scene.road) c.kind = Cond::COLLISION;
    c.name = "c" + std::to_string(i);
    c.all = wchance(1, 2);
    const bool must = c.kind == Cond::ACCELERATION || c.kind == Cond::STILL;
    auto fits = [&](const std::string & r) {
      if (c.kind == Cond::CLEARANCE && scene.groups.count(r)) return false;
      for (auto & m : scene.members(r)) {
        if (must && std::find(present.begin(), present.end(), m) == present.end()) return false;
        if (c.kind == Cond::STILL && scene.objects[m].type == "miscellaneous") return false;
      }
      return true;
    };
    for (u64 n = 1 + w(3); n--;) {
      const auto & r = refs[w(refs.size())];
      if (fits(r) && std::find(c.triggering.begin(), c.triggering.end(), r) == c.triggering.end()) c.triggering.push_back(r);
    }
    if (c.triggering.empty()) c.triggering.push_back(present[0]);
    c.rule = static_cast<int>(w(6));
    c.other = names[w(names.size())];
    c.freespace = wchance(1, 2);
    c.distance = static_cast<int>(w(3));
    switch (c.kind) {
      case Cond::SPEED: c.direction = static_cast<int>(w(4)) - 1; c.value = quarter(-2, 6); break;
      case Cond::ACCELERATION: c.value = quarter(-6, 6); break;
      case Cond::STILL: c.rule = 1; c.value = wchance(1, 5) ? -1 : real(0, horizon / 3); break;
      case Cond::RELATIVE_SPEED: c.direction = static_cast<int>(w(4)) - 1; c.value = quarter(-4, 8) + 0.1; break;
      case Cond::HEADWAY: c.value = real(0, 8); break;
      case Cond::TTC:
        c.value = real(0, 10);
        c.to_entity = wchance(2, 3);
        c.place = place();
        c.direction = c.distance == 2 ? -1 : c.distance;
        if (!c.to_entity) c.freespace = false;
        if (scene.road && wchance(1, 3) && c.to_entity && c.distance != 2) c.on_lane = c.shortest = true;
        break;
      case Cond::COLLISION: if ((c.by_type = wchance(1, 2))) c.other = std::vector{"vehicle", "pedestrian", "miscellaneous"}[w(3)]; break;
      case Cond::REACH: c.rule = 2; c.value = real(0, 20); c.place = place(); break;
      case Cond::DISTANCE: case Cond::RELATIVE_DISTANCE:
        c.place = place();
        if (scene.road && wchance(1, 2) && c.distance != 2) { c.on_lane = true; c.shortest = wchance(1, 2); }
        if (c.on_lane && c.place.kind == Place::OBJECT) { c.place = Place(); c.place.kind = Place::LANE; c.place.lane = 2; c.place.s = 20; c.place.p = {70, 1.75, 0}; }
        if (c.on_lane && c.place.kind == Place::WORLD) c.place.p.y = c.place.p.y > 3.5 ? 5.25 : 1.75;
        c.value = c.distance == 1 ? real(-4, 6) : real(-20, 30);
        break;
      case Cond::CLEARANCE:
        c.backward = real(0, 40);
        c.forward = real(0, 40);
        for (u64 n = w(3); n--;) {
          std::optional<int> from, to;
          if (wchance(2, 3)) from = range(W, -1, 1);
          if (wchance(2, 3)) to = range(W, from ? *from : -1, 1);
          c.ranges.push_back({from, to});
        }
        if (wchance(1, 2)) for (u64 n = 1 + w(2); n--;) {
          const auto & r = refs[w(refs.size())];
          bool fine = std::find(c.others.begin(), c.others.end(), r) == c.others.end();
          for (auto & m : scene.members(r)) fine = fine && std::find(c.triggering.begin(), c.triggering.end(), m) == c.triggering.end() && scene.objects[m].always;
          if (fine) c.others.push_back(r);
        }
        for (auto & t : c.triggering) if (!scene.objects[t].always) { c.triggering = {present[0]}; c.others.clear(); break; }
        break;
      default: break;
    }
    if (c.kind == Cond::TTC || c.kind == Cond::RELATIVE_SPEED || c.kind == Cond::RELATIVE_DISTANCE || c.kind == Cond::HEADWAY) if (!c.to_entity) c.other.clear();
    return c;
  }
};
}  // namespace

void conditions_on_entities_scenario()
{
  set_limits(6'000'000, 4000 * sec);
  enable_fault("simulator_slow", wchance(1, 3));
  enable_fault("frame_late", wchance(1, 3));
  Conditions k;
  k.rate = std::vector<double>{10, 20, 30}[w(3)];
  k.factor = std::vector<double>{1, 1, 2, 0.5}[w(4)];
  const int frames = 25 + static_cast<int>(w(50));
  const double step = k.factor / k.rate;
  k.horizon = frames * step;
  auto & scene = k.scene;
  scene.road = wchance(1, 2);
  scene.standard = wchance(1, 2), scene.slope = wchance(1, 2);
  k.center = {real(-100, 100), 1000 + real(0, 100), 0};
  auto & r = *boot(k.rate, k.factor, [&](auto & p) { p["speed_condition"] = rclcpp::ParameterValue(std::string(scene.standard ? "standard" : "legacy")), p["consider_pose_by_road_slope"] = rclcpp::ParameterValue(scene.slope); });
  simros::plugins<Plugin>()["sim/Mover"] = [] { return std::static_pointer_cast<Plugin>(std::make_shared<Mover>()); };
  legs = new std::map<std::string, std::vector<Leg>>;

  Text t;
  std::string late;                                        // events that add and remove entities
  const auto n = 2 + w(3);
  for (u64 i = 0; i < n; ++i) {
    const std::string name = std::string(1, static_cast<char>('a' + i));
    const auto type = i == 0 ? 0 : w(5);
    scene.objects[name] = {type == 3 ? "pedestrian" : type == 4 ? "miscellaneous" : "vehicle", i == 0 || wchance(1, 2)};
    t.entities += type == 4 ? "<ScenarioObject name=\"" + name + "\">" + box_body() + "</ScenarioObject>" : vehicle(name, "sim/Mover", "", type == 3 ? pedestrian_body() : "");
    k.names.push_back(name);
    if (scene.objects[name].always) k.present.push_back(name);
    auto & l = (*legs)[name];
    for (u64 j = 0, m = 2 + w(6); j < m; ++j) l.push_back(k.leg(j ? real(0, k.horizon) : -1));
    std::sort(l.begin(), l.end(), [](auto & a, auto & b) { return a.from < b.from; });
    if (scene.road && type == 3) for (auto & x : l) x.yaw = 0;
    // the place it appears at
    Place at;
    at.p = k.somewhere();
    const std::string position = Scene::text(at);
    double begin = 0, end = infinity;
    if (!scene.objects[name].always) {
      const auto what = w(3);
      if (what != 0) begin = real(0.2, 0.6) * k.horizon;
      if (what != 1) end = begin + real(0.1, 0.4) * k.horizon;
    }
    const bool how = wchance(1, 2);
    auto appear = [&](const std::string & id, double when) {
      late += event(id, action(id + "_action", how ? "<GlobalAction>" + add_entity(name, position) + "</GlobalAction>" : "<GlobalAction>" + add_entity(name, position) + "</GlobalAction>"), trigger(time_condition("greaterThan", when)));
    };
    if (begin > 0) appear("add_" + name, begin);
    else t.init += how ? "<GlobalAction>" + add_entity(name, position) + "</GlobalAction>" : "<Private entityRef=\"" + name + "\">" + teleport(position) + "</Private>";
    if (!std::isinf(end)) {
      late += event("delete_" + name, action("delete_" + name + "_action", "<GlobalAction>" + delete_entity(name) + "</GlobalAction>"), trigger(time_condition("greaterThan", end)));
      if (wchance(1, 2)) appear("add_again_" + name, end + real(0.1, 0.3) * k.horizon);
    }
  }
  k.refs = k.names;
  if (wchance(1, 2)) {
    std::vector<std::string> m;
    for (auto & x : k.names) if (wchance(1, 2)) m.push_back(x);
    if (!m.empty()) { scene.groups["group"] = m; t.entities += selection("group", m, ""); k.refs.push_back("group"); }
  }
  if (wchance(1, 2)) {
    const std::string type = std::vector{"vehicle", "pedestrian", "miscellaneous"}[w(3)];
    std::vector<std::string> m;
    for (auto & [x, o] : scene.objects) if (o.type == type) m.push_back(x);
    scene.groups["kind"] = m;
    t.entities += selection("kind", m, type);
    k.refs.push_back("kind");
  }
  std::string group;
  for (u64 i = 0, m = 6 + w(10); i < m; ++i) { k.conditions.push_back(k.make(static_cast<int>(i))); group += Scene::text(k.conditions.back()); }
  t.stories = story("observer", event("observed", action("nothing", "<UserDefinedAction><CustomCommandAction type=\":\"></CustomCommandAction></UserDefinedAction>"), trigger(group + time_condition("greaterThan", 1e9)))) + (late.empty() ? "" : story("late", late));
  write(r, t());

  World last, now_known;
  u64 messages = 0, at_last = 0;
  simros::observe<traffic_simulator_msgs::msg::EntityStatusWithTrajectoryArray>("/entity/status", [&](const auto & m) {
    ++messages;
    last = now_known;
    World next;
    for (auto & d : m.data) {
      auto x = truth(d.status);
      auto it = now_known.find(d.name);
      x.still = std::abs(x.vx) > 0 ? 0 : (it == now_known.end() ? 0 : it->second.still) + step;
      if (d.time < 0 || std::isnan(d.time)) x.still = 0;
      next[d.name] = x;
    }
    now_known = std::move(next);
  });
  bool have_time = false;
  u64 compared = 0, frame = 0, flips = 0, fingerprint = 0;
  std::map<std::string, Tri> before;
  r.on_frame = [&](const Frame & f) {
    ++frame;
    const u64 got = messages - at_last;
    at_last = messages;
    if (have_time && got == 1 && frame > 3) {
      auto & e = f.json.at("OpenSCENARIO").at("Storyboard").at("Story").at(0).at("Act").at(0).at("ManeuverGroup").at(0).at("Maneuver").at(0).at("Event").at(0);
      auto & all = e.at("StartTrigger").at("ConditionGroup").at(0).at("Condition").as_array();
      for (std::size_t i = 0; i < k.conditions.size(); ++i) {
        auto & c = k.conditions[i];
        const bool theirs = all.at(i).at("currentValue").as_string() == "true";
        const Tri mine = scene.evaluate(c, last);
        if (mine == UNKNOWN) { count("evaluations that nothing is promised of"); continue; }
        ++compared;
        (mine == YES ? c.yes : c.no) += 1;
        if (before.count(c.name) && before[c.name] != mine) { ++flips; fingerprint = fingerprint * 1000003 + i * 97 + frame; }
        before[c.name] = mine;
        static const char * kinds[] = {"speed", "acceleration", "stand-still", "relative-speed", "time-headway", "time-to-collision", "collision", "reach-position", "distance", "relative-distance", "relative-clearance"};
        if (theirs != (mine == YES)) {
          std::string w;
          for (auto & [n, x] : last) w += " " + n + " at (" + str(x.x) + ", " + str(x.y) + ", " + str(x.z) + ") heading " + str(x.yaw) + " speed (" + str(x.vx) + ", " + str(x.vy) + ", " + str(x.vz) + ") acceleration " + str(x.ax) + " standing for " + str(x.still) + ";";
          violation(kinds[c.kind], "the condition " + Scene::text(c) + " is " + (theirs ? "true" : "false") + " [" + std::string(all.at(i).at("currentEvaluation").as_string()) + "] with" + w);
        }
        probe((std::string(kinds[c.kind]) + (mine == YES ? " holds" : " does not hold")).c_str());
      }
    }
    if (!std::isnan(f.time)) have_time = true;
  };
  r.node->configure();
  check(r.state() == Primary::PRIMARY_STATE_INACTIVE, "scenario-refused", "a valid scenario is refused: " + text(verdict(r.output)));
  r.node->activate();
  check(r.active(), "scenario-refused", "a valid scenario cannot be started: " + text(verdict(r.output)));
  for (int i = 0; i < frames && r.active(); ++i) {
    if (fault("frame_late", 1, 10)) sim::sleep_ns(static_cast<i64>(choose(F, 300)) * ms);
    serve(r, static_cast<i64>(1e9 / k.rate), [&] { return !r.active(); });
  }
  if (!r.active()) violation("ended-by-itself", "the scenario ended although nothing ends it: " + text(verdict(r.output)));
  count("conditions compared", compared);
  if (flips > 2) nontrivial(fingerprint);
  sample(std::string(scene.road ? "on a road" : "in the open") + ", " + std::to_string(n) + " entities, " + std::to_string(k.conditions.size()) + " conditions, " + std::to_string(compared) + " comparisons, " + std::to_string(flips) + " changes");
}

// ================================================================ C26
namespace
{
// ---- a behaviour that stays where it is, obeys speed requests, and remembers what it is told
struct Orders
{
  std::vector<std::string> list;                           // since the last frame
  std::optional<double> speed;
  traffic_simulator_msgs::msg::BehaviorParameter limits;
  std::string busy;
  int left = 0;                                            // updates
};
std::map<std::string, Orders> * orders = nullptr;
std::map<std::string, int> * patience = nullptr;           // how many updates it takes to execute an order
std::string order_text(const Pose & p) { return "(" + str(p.position.x) + ", " + str(p.position.y) + ")"; }
struct Keeper : entity_behavior::DoNothingBehavior
{
  std::string entity, doing = "do_nothing";
  std::optional<double> target;
  Orders & mine() { return (*orders)[entity]; }
  void configure(const rclcpp::Logger & logger) override { entity = logger.get_name(); DoNothingBehavior::configure(logger); }
  std::string name()
  {
    if (auto s = getCanonicalizedEntityStatus()) return static_cast<traffic_simulator::EntityStatus>(*s).name;
    return entity;
  }
  void note(const std::string & text, const std::string & busy = "")
  {
    auto & o = (*orders)[name()];
    o.list.push_back(text);
    logf("order for ", name(), ": ", text);
    if (!busy.empty()) o.busy = busy, o.left = patience->count(name()) ? (*patience)[name()] : 1;
  }
  void setGoalPoses(const std::vector<Pose> & p) override
  {
    if (p.empty()) return;
    std::string t = "goals";
    for (auto & x : p) t += " " + order_text(x);
    note(t);
  }
  void setTargetSpeed(const std::optional<double> & v) override { target = v; }
  std::optional<double> getTargetSpeed() override { return target; }
  void setLaneChangeParameters(const traffic_simulator::lane_change::Parameter & p) override
  {
    note("lane " + std::to_string(p.target.lanelet_id) + " offset " + str(p.target.offset) + " shape " + std::to_string(static_cast<int>(p.trajectory_shape)) + " by " + std::to_string(static_cast<int>(p.constraint.type)) + " " + str(p.constraint.value), "lane_change");
  }
  void setPolylineTrajectory(const std::shared_ptr<traffic_simulator_msgs::msg::PolylineTrajectory> & p) override
  {
    if (!p) return;
    mine_trajectory = p;
    note(std::string("trajectory") + (p->dynamic_constraints_ignorable ? " position" : " follow") + " from " + str(p->base_time) + trajectory(), "follow_polyline_trajectory");
  }
  std::string trajectory()
  {
    std::string t;
    for (auto & v : mine_trajectory->shape.vertices) t += " " + order_text(v.position) + (std::isnan(v.time) ? "" : " at " + str(v.time));
    return t;
  }
  std::shared_ptr<traffic_simulator_msgs::msg::PolylineTrajectory> mine_trajectory;
  const std::string & getCurrentAction() const override { return doing; }
  void update(double current, double step) override
  {
    auto s = getCanonicalizedEntityStatus();
    if (!s) return;
    auto & o = (*orders)[name()];
    o.speed = target;
    o.limits = getBehaviorParameter();
    doing = o.left > 0 ? o.busy : "do_nothing";
    if (o.left > 0) --o.left;
    // what it follows is its own
    if (mine_trajectory && doing == "follow_polyline_trajectory" && mine_trajectory->shape.vertices.size() > 1) mine_trajectory->shape.vertices.erase(mine_trajectory->shape.vertices.begin());
    const double v = s->getTwist().linear.x;
    if (target) {
      const auto & d = o.limits.dynamic_constraints;
      const double most = d.max_acceleration * step, least = d.max_deceleration * step;
      s->setLinearVelocity(*target > v ? std::min(*target, v + most) : std::max(*target, v - least));
    }
    s->setTime(current + step);
  }
};

struct Ent
{
  bool added = false;
  double x = 0, y = 0, z = 0, yaw = 0, v = 0;
  int lane = 0;                                            // 0: not on a lane
  std::map<std::string, double> limits;                    // as set by its controller
  bool limits_known = true;
  std::optional<double> target;
  bool settling = false;                                   // on the way from zero back to its target speed
};
struct Ramp { std::string entity; double from, to, rate; double begun = -1; };
struct Op
{
  enum Kind { TELEPORT, ADD, DELETE, STEP, STEP_RELATIVE, LINEAR, CONTROLLER, LANE, LANE_RELATIVE, TRAJECTORY, ACQUIRE, ROUTE, KINDS } kind;
  std::string actor, second, other;
  Place place;
  double yaw = 0, value = 0;
  bool delta = false, absolute = false;
  int lane = 0, shape = 0, dimension = 0;
  double offset = 0, dynamics = 0, scale = 1;
  std::map<std::string, double> limits;
  std::vector<Place> places;
  std::vector<double> times;
};
const std::map<std::string, std::pair<std::string, double>> limit_names{{"maxSpeed", {"max_speed", 50}}, {"maxAcceleration", {"max_acceleration", 10}}, {"maxAccelerationRate", {"max_acceleration_rate", 3}}, {"maxDeceleration", {"max_deceleration", 10}}, {"maxDecelerationRate", {"max_deceleration_rate", 3}}};

struct Actions
{
  double rate, factor, step;
  std::map<std::string, std::string> type;                 // vehicle, pedestrian, miscellaneous
  std::map<std::string, std::map<std::string, double>> declared;
  std::map<std::string, std::vector<std::string>> groups;
  std::map<std::string, Ent> now;                          // the model
  std::vector<std::string> members(const std::string & r) const { auto it = groups.find(r); return it == groups.end() ? std::vector<std::string>{r} : it->second; }

  std::vector<std::string> all(const Op & o) const { auto m = members(o.actor); if (!o.second.empty()) for (auto & x : members(o.second)) m.push_back(x); return m; }

  static std::string properties(const std::map<std::string, double> & l)
  {
    std::string s;
    for (auto & [n, v] : l) s += "<Property name=\"" + n + "\" value=\"" + (n == "isBlind" ? v > 0 ? "true" : "false" : num(v)) + "\"/>";
    return s;
  }
  static std::string text(const Place & p, double yaw)
  {
    if (p.kind == Place::WORLD) return "<Position><WorldPosition x=\"" + num(p.p.x) + "\" y=\"" + num(p.p.y) + "\" z=\"" + num(p.p.z) + "\" h=\"" + num(yaw) + "\" p=\"0\" r=\"0\"/></Position>";
    if (p.kind == Place::LANE) return lane_position(p.lane, p.s, p.offset);
    return "<Position><RelativeObjectPosition entityRef=\"" + p.of + "\" dx=\"" + num(p.p.x) + "\" dy=\"" + num(p.p.y) + "\" dz=\"0\"><Orientation type=\"relative\" h=\"" + num(yaw) + "\" p=\"0\" r=\"0\"/></RelativeObjectPosition></Position>";
  }
  void put(Ent & e, const Place & p, double yaw) const
  {
    e.lane = 0;
    e.yaw = yaw;
    if (p.kind == Place::OBJECT) {
      auto & o = now.at(p.of);
      Truth t{};
      t.x = o.x; t.y = o.y; t.z = o.z; t.yaw = o.yaw;
      const V g = global(t, {p.p.x, p.p.y, 0});
      e.x = g.x; e.y = g.y; e.z = g.z; e.yaw = o.yaw + yaw;
      return;
    }
    e.x = p.p.x; e.y = p.p.y; e.z = p.p.z;
    if (p.kind == Place::LANE) { e.yaw = 0; e.lane = p.lane; }
  }
  static std::string action(const Op & o)
  {
    const std::string position = text(o.place, o.yaw);
    const auto longitudinal = [](const std::string & shape, const std::string & dimension, double v, const std::string & target) {
      return "<PrivateAction><LongitudinalAction><SpeedAction><SpeedActionDynamics dynamicsShape=\"" + shape + "\" dynamicsDimension=\"" + dimension + "\" value=\"" + num(v) + "\"/><SpeedActionTarget>" + target + "</SpeedActionTarget></SpeedAction></LongitudinalAction></PrivateAction>";
    };
    const std::string absolute = "<AbsoluteTargetSpeed value=\"" + num(o.value) + "\"/>";
    const char * dimensions[] = {"rate", "distance", "time"};
    const auto lane = [&](const std::string & target) {
      return "<PrivateAction><LateralAction><LaneChangeAction targetLaneOffset=\"" + num(o.offset) + "\"><LaneChangeActionDynamics dynamicsShape=\"" + (o.shape ? "linear" : "cubic") + "\" dynamicsDimension=\"" + dimensions[o.dimension] + "\" value=\"" + num(o.dynamics) + "\"/><LaneChangeTarget>" + target + "</LaneChangeTarget></LaneChangeAction></LateralAction></PrivateAction>";
    };
    std::string s;
    switch (o.kind) {
      case Op::TELEPORT: return teleport(position);
      case Op::ADD: return "<GlobalAction>" + add_entity(o.actor, position) + "</GlobalAction>";
      case Op::DELETE: return "<GlobalAction>" + delete_entity(o.actor) + "</GlobalAction>";
      case Op::STEP: return longitudinal("step", "time", 0, absolute);
      case Op::STEP_RELATIVE: return longitudinal("step", "time", 0, "<RelativeTargetSpeed entityRef=\"" + o.other + "\" value=\"" + num(o.value) + "\" speedTargetValueType=\"" + (o.delta ? "delta" : "factor") + "\" continuous=\"false\"/>");
      case Op::LINEAR: return longitudinal("linear", o.absolute ? "time" : "rate", o.dynamics, absolute);
      case Op::CONTROLLER: return "<PrivateAction><ControllerAction><AssignControllerAction><Controller name=\"\"><Properties>" + properties(o.limits) + "</Properties></Controller></AssignControllerAction></ControllerAction></PrivateAction>";
      case Op::LANE: return lane("<AbsoluteTargetLane value=\"" + std::to_string(o.lane) + "\"/>");
      case Op::LANE_RELATIVE: return lane("<RelativeTargetLane entityRef=\"" + o.other + "\" value=\"" + std::to_string(o.lane) + "\"/>");
      case Op::TRAJECTORY:
        s = "<PrivateAction><RoutingAction><FollowTrajectoryAction initialDistanceOffset=\"0\"><TimeReference><Timing domainAbsoluteRelative=\"relative\" offset=\"" + num(o.offset) + "\" scale=\"" + num(o.scale) + "\"/></TimeReference><TrajectoryFollowingMode followingMode=\"" + (o.shape ? "position" : "follow") + "\"/><TrajectoryRef><Trajectory name=\"\" closed=\"false\"><ParameterDeclarations/><Shape><Polyline>";
        for (std::size_t i = 0; i < o.places.size(); ++i) s += "<Vertex" + (std::isnan(o.times[i]) ? "" : " time=\"" + num(o.times[i]) + "\"") + ">" + text(o.places[i], 0) + "</Vertex>";
        return s + "</Polyline></Shape></Trajectory></TrajectoryRef></FollowTrajectoryAction></RoutingAction></PrivateAction>";
      case Op::ACQUIRE: return "<PrivateAction><RoutingAction><AcquirePositionAction>" + position + "</AcquirePositionAction></RoutingAction></PrivateAction>";
      case Op::ROUTE:
        s = "<PrivateAction><RoutingAction><AssignRouteAction><Route name=\"\" closed=\"false\"><ParameterDeclarations/>";
        for (auto & p : o.places) s += "<Waypoint routeStrategy=\"shortest\">" + text(p, 0) + "</Waypoint>";
        return s + "</Route></AssignRouteAction></RoutingAction></PrivateAction>";
      default: return "";
    }
  }
  // applies an action to the model; what the behaviours are told and what the simulator is asked go to the lists
  void apply(const Op & o, std::map<std::string, std::vector<std::string>> & told, std::vector<std::string> & asked, std::vector<Ramp> & ramps, double time)
  {
    for (auto & m : all(o)) {
      auto & e = now[m];
      switch (o.kind) {
        case Op::TELEPORT: case Op::ADD:
          put(e, o.place, o.yaw);
          if (!e.added) e.target.reset();
          e.settling = e.target && *e.target > 0;
          e.v = 0;
          if (!e.added) { e.added = true; asked.push_back("spawn " + m); e.limits = declared[m]; e.limits_known = type[m] != "miscellaneous"; }
          break;
        case Op::DELETE: e.added = false; asked.push_back("despawn " + m); break;
        case Op::STEP: e.v = o.value; e.target = e.v; e.settling = false; break;
        case Op::STEP_RELATIVE: e.v = o.delta ? now[o.other].v + o.value : now[o.other].v * o.value; e.target.reset(); e.settling = false; break;
        case Op::LINEAR: {
          const double difference = o.value - e.v;
          ramps.push_back({m, e.v, o.value, o.absolute ? std::abs(difference) / o.dynamics : o.dynamics, time});
          e.v = o.value;
          e.target = e.v;
          e.limits_known = false;
          break;
        }
        case Op::CONTROLLER: e.limits = o.limits; e.limits_known = true; break;
        case Op::LANE: case Op::LANE_RELATIVE: {
          const int types[] = {1, 2, 3};
          const int target = o.kind == Op::LANE ? o.lane : o.lane > 0 ? now[o.other].lane + 10 : now[o.other].lane - 10;
          told[m].push_back("lane " + std::to_string(target) + " offset " + str(o.offset) + " shape " + std::to_string(o.shape) + " by " + std::to_string(types[o.dimension]) + " " + str(o.dynamics));
          break;
        }
        case Op::TRAJECTORY: {
          std::string t = std::string("trajectory") + (o.shape ? " position" : " follow") + " from " + str(time) + " " + order_text(pose(e.x, e.y, 0));
          for (std::size_t i = 0; i < o.places.size(); ++i) t += " " + order_text(pose(o.places[i].p.x, o.places[i].p.y, 0)) + (std::isnan(o.times[i]) ? "" : " at " + str(o.offset + o.scale * o.times[i]));
          told[m].push_back(t);
          break;
        }
        case Op::ACQUIRE: told[m].push_back("goals " + order_text(pose(o.place.p.x, o.place.p.y, 0))); break;
        case Op::ROUTE: {
          std::string t = "goals";
          for (auto & p : o.places) t += " " + order_text(pose(p.p.x, p.p.y, 0));
          told[m].push_back(t);
          break;
        }
        default: break;
      }
    }
  }
  Place on_lane(bool ahead = false) const
  {
    Place p;
    p.kind = Place::LANE;
    p.lane = 1 + static_cast<int>(w(3)) + (ahead ? 2 : 0);
    if (wchance(1, 2)) p.lane += 10;
    p.s = real(2, 48);
    p.offset = wchance(1, 2) ? 0 : real(-0.5, 0.5);
    p.p = {(p.lane % 10 - 1) * 50 + p.s, (p.lane > 10 ? 5.25 : 1.75) + p.offset, 0};
    return p;
  }
  Place in_the_open() const
  {
    Place p;
    p.p = {real(-50, 50), 1000 + real(0, 60), wchance(1, 4) ? quarter(-2, 2) : 0};
    return p;
  }
};
}  // namespace

void actions_on_entities_scenario()
{
  enable_fault("simulator_slow", wchance(1, 3));
  enable_fault("frame_late", wchance(1, 3));
  Actions k;
  k.rate = std::vector<double>{10, 20, 30}[w(3)];
  k.factor = std::vector<double>{1, 1, 2, 0.5}[w(4)];
  k.step = k.factor / k.rate;
  auto & r = *boot(k.rate, k.factor);
  simros::plugins<Plugin>()["sim/Keeper"] = [] { return std::static_pointer_cast<Plugin>(std::make_shared<Keeper>()); };
  orders = new std::map<std::string, Orders>;
  patience = new std::map<std::string, int>;
  auto limits = [&] {
    std::map<std::string, double> l;
    for (auto & [n, x] : limit_names) if (wchance(1, 2)) l[n] = quarter(1, 9);
    if (wchance(1, 2)) l["isBlind"] = w(2);
    return l;
  };
  Text t;
  std::vector<std::string> names, refs;
  for (u64 i = 0, n = 2 + w(3); i < n; ++i) {
    const std::string name = std::string(1, static_cast<char>('a' + i));
    const auto what = i == 0 ? 0 : w(5);
    k.type[name] = what == 3 ? "pedestrian" : what == 4 ? "miscellaneous" : "vehicle";
    if (what != 4) k.declared[name] = limits();
    t.entities += what == 4 ? "<ScenarioObject name=\"" + name + "\">" + box_body() + "</ScenarioObject>" : vehicle(name, "sim/Keeper", Actions::properties(k.declared[name]), what == 3 ? pedestrian_body() : "");
    names.push_back(name);
    (*patience)[name] = 1 + static_cast<int>(w(12));
  }
  refs = names;
  if (wchance(2, 3)) {
    std::vector<std::string> m;
    for (auto & x : names) if (wchance(2, 3)) m.push_back(x);
    if (!m.empty()) { k.groups["group"] = m; t.entities += selection("group", m, ""); refs.push_back("group"); }
  }

  // a plan: which event does what and when
  struct Planned { std::string name; std::vector<Op> ops; std::vector<std::string> actors; double time; bool begun = false, ended = false; u64 begun_at = 0; std::vector<Ramp> ramps; };
  std::vector<Planned> plan;
  std::map<std::string, Ent> start;
  {
    auto some_place = [&](const std::vector<std::string> & not_of, bool init) {
      const auto what = w(3);
      if (what == 0) return k.on_lane();
      if (what == 1 && !init) {
        std::vector<std::string> c;
        for (auto & n : names) if (k.now[n].added && std::find(not_of.begin(), not_of.end(), n) == not_of.end()) c.push_back(n);
        if (!c.empty()) {
          Place p;
          p.kind = Place::OBJECT;
          p.of = c[w(c.size())];
          p.p = {quarter(-10, 10), quarter(-4, 4), 0};
          return p;
        }
      }
      return k.in_the_open();
    };
    std::map<std::string, std::vector<std::string>> nobody;
    std::vector<std::string> nothing;
    std::vector<Ramp> ramps;
    for (auto & n : names) {
      if (n != "a" && wchance(1, 3)) continue;             // comes later
      Op o;
      o.actor = n;
      o.kind = wchance(1, 2) ? Op::ADD : Op::TELEPORT;
      o.place = some_place({}, true);
      o.yaw = o.place.kind == Place::LANE ? 0 : real(-3, 3);
      t.init += o.kind == Op::ADD ? Actions::action(o) : "<Private entityRef=\"" + n + "\">" + Actions::action(o) + "</Private>";
      k.apply(o, nobody, nothing, ramps, 0);
      if (k.type[n] != "miscellaneous" && wchance(1, 3)) {
        Op s;
        s.actor = n;
        s.kind = Op::STEP;
        s.value = quarter(1, 9);
        t.init += "<Private entityRef=\"" + n + "\">" + Actions::action(s) + "</Private>";
        k.apply(s, nobody, nothing, ramps, 0);
      }
    }
    // LINEAR in Init is not used: it would be in progress when the observation begins
    start = k.now;
    std::map<std::string, double> busy;                    // until when
    double time = 4.371 * k.step;
    auto kind = static_cast<Op::Kind>(w(Op::KINDS));
    bool two = wchance(1, 2);
    for (u64 e = 0, m = 4 + w(9), tries = 0; e < m && tries < 12 * m; ++tries) {
      if (tries % 8 == 7) {                                  // nobody can do that now
        kind = static_cast<Op::Kind>(w(Op::KINDS));
        two = wchance(1, 2);
      }
      Planned p;
      p.name = "e" + std::to_string(e);
      p.time = time;
      Op o;
      o.kind = kind;
      o.actor = refs[w(refs.size())];
      if (two && tries % 8 < 6 && o.kind != Op::ADD && o.kind != Op::DELETE) {
        o.second = refs[w(refs.size())];
        const auto one = k.members(o.actor);
        for (auto & x : k.members(o.second)) if (std::find(one.begin(), one.end(), x) != one.end()) { o.second.clear(); break; }
      }
      auto ms = k.all(o);
      bool fine = true, all_added = true, none_added = true, drivers = true, cars = true, laned = true;
      for (auto & x : ms) {
        fine = fine && busy[x] < time;
        (k.now[x].added ? none_added : all_added) = false;
        drivers = drivers && k.type[x] != "miscellaneous";
        cars = cars && k.type[x] == "vehicle";
        laned = laned && k.now[x].lane;
      }
      double length = 0;
      switch (o.kind) {
        case Op::TELEPORT: o.place = some_place(ms, false); o.yaw = o.place.kind == Place::LANE ? 0 : real(-3, 3); break;
        case Op::ADD: fine = fine && none_added; o.place = some_place(ms, false); o.yaw = o.place.kind == Place::LANE ? 0 : real(-3, 3); break;
        case Op::DELETE: fine = fine && all_added; break;
        case Op::STEP: fine = fine && all_added && drivers; o.value = quarter(0, 9); break;
        case Op::STEP_RELATIVE: {
          o.other = names[w(names.size())];
          fine = fine && all_added && drivers && k.now[o.other].added && !k.now[o.other].settling && busy[o.other] < time && std::find(ms.begin(), ms.end(), o.other) == ms.end();
          // (an earlier target is obeyed for another frame)
          for (auto & x : ms) fine = fine && !k.now[x].target;
          o.delta = wchance(1, 2);
          o.value = o.delta ? quarter(-3, 3) : quarter(0, 2);
          break;
        }
        case Op::LINEAR:
          fine = fine && all_added && drivers;
          o.value = quarter(0, 9);
          o.absolute = false;   // only rates are supported
          o.dynamics = o.absolute ? real(1, 4) : quarter(1, 6);
          for (auto & x : ms) { fine = fine && !k.now[x].settling && std::abs(o.value - k.now[x].v) > 0.3; length = std::max(length, o.absolute ? o.dynamics : std::abs(o.value - k.now[x].v) / o.dynamics); }
          length += 4 * k.step;
          break;
        case Op::CONTROLLER: fine = fine && all_added && drivers; o.limits = limits(); break;
        case Op::LANE: case Op::LANE_RELATIVE:
          fine = fine && all_added && cars && laned;
          o.offset = wchance(1, 2) ? 0 : quarter(-1, 1);
          o.shape = static_cast<int>(w(2));
          o.dimension = static_cast<int>(w(3));
          o.dynamics = quarter(1, 8);
          o.lane = 11 + static_cast<int>(w(5));
          if (o.kind == Op::LANE_RELATIVE) {
            o.other = names[w(names.size())];
            fine = fine && k.now[o.other].added && k.now[o.other].lane;
            o.lane = k.now[o.other].lane > 10 ? -1 : 1;
          }
          length = 16 * k.step;
          break;
        case Op::TRAJECTORY: {
          fine = fine && all_added && cars;
          o.shape = static_cast<int>(w(2));
          o.offset = quarter(0, 3);
          o.scale = quarter(1, 3);
          const bool timed = wchance(1, 2);
          auto at = k.in_the_open();
          for (u64 i = 0, n = 2 + w(4); i < n; ++i) {
            at.p.x += real(6, 20);
            at.p.y += real(-5, 5);
            at.p.z = 0;
            o.places.push_back(at);
            o.times.push_back(timed ? 100 + 10.0 * static_cast<double>(i) : std::nan(""));
          }
          length = 16 * k.step;
          break;
        }
        case Op::ACQUIRE: fine = fine && all_added && cars && laned; o.place = k.on_lane(true); break;
        case Op::ROUTE: fine = fine && all_added && cars && laned; o.places = {k.on_lane(true), k.on_lane(true)}; break;
        default: break;
      }
      if (!fine) continue;
      ++e;
      kind = static_cast<Op::Kind>(w(Op::KINDS));
      two = wchance(1, 2);
      for (auto & x : ms) busy[x] = time + length;
      if (!o.other.empty()) busy[o.other] = std::max(busy[o.other], time);
      p.ops.push_back(o);
      if (o.kind != Op::ADD && o.kind != Op::DELETE) { p.actors = {o.actor}; if (!o.second.empty()) p.actors.push_back(o.second); }
      std::map<std::string, std::vector<std::string>> told;
      std::vector<std::string> asked;
      std::vector<Ramp> r2;
      k.apply(o, told, asked, r2, time);
      plan.push_back(p);
      time += (3 + static_cast<double>(w(6))) * k.step;
    }
    k.now = start;
    for (auto & p : plan) t.stories += story(p.name, event(p.name, action(p.name + "_action", Actions::action(p.ops[0])), trigger(time_condition("greaterThan", p.time))), p.actors);
    if (plan.empty()) t.stories = story("nothing", event("nothing", action("nothing", "<UserDefinedAction><CustomCommandAction type=\":\"></CustomCommandAction></UserDefinedAction>"), trigger(time_condition("greaterThan", 1e9))));
  }
  write(r, t());
  const int frames = plan.empty() ? 6 : static_cast<int>(plan.back().time / k.step) + 8 + static_cast<int>(w(30));

  World seen;
  u64 messages = 0;
  std::vector<std::string> requests;
  simros::observe<traffic_simulator_msgs::msg::EntityStatusWithTrajectoryArray>("/entity/status", [&](const auto & m) {
    ++messages;
    seen.clear();
    for (auto & d : m.data) seen[d.name] = truth(d.status);
  });
  r.simulator->observe = [&](const std::string & kind, const auto & q, bool) {
    if (kind == "spawn_vehicle_entity") requests.push_back("spawn " + q.spawn_vehicle_entity().parameters().name());
    if (kind == "spawn_pedestrian_entity") requests.push_back("spawn " + q.spawn_pedestrian_entity().parameters().name());
    if (kind == "spawn_misc_object_entity") requests.push_back("spawn " + q.spawn_misc_object_entity().parameters().name());
    if (kind == "despawn_entity") requests.push_back("despawn " + q.despawn_entity().name());
  };
  u64 frame = 0, done = 0, fingerprint = 0;
  double previous = 0;
  std::vector<Ramp> active;
  auto joined = [](const std::vector<std::string> & v) { std::string s; for (auto & x : v) s += (s.empty() ? "" : "; ") + x; return s.empty() ? std::string("nothing") : s; };
  static const char * names_of[] = {"teleport", "add", "delete", "speed-step", "speed-step-relative", "speed-linear", "controller", "lane-change", "lane-change-relative", "trajectory", "acquire-position", "assign-route"};
  r.on_frame = [&](const Frame & f) {
    ++frame;
    struct Last { double & to; double value; ~Last() { to = value; } } last{previous, f.time};
    if (std::isnan(f.time) || frame <= 2) { requests.clear(); for (auto & [n, o] : *orders) o.list.clear(); return; }
    std::map<std::string, std::vector<std::string>> told;
    std::vector<std::string> asked;
    std::string begun;
    auto & stories = f.json.at("OpenSCENARIO").at("Storyboard").at("Story");
    for (std::size_t i = 0; i < plan.size(); ++i) {
      auto & e = stories.at(i).at("Act").at(0).at("ManeuverGroup").at(0).at("Maneuver").at(0).at("Event").at(0);
      const auto state = std::string(e.at("Action").at(0).at("currentState").as_string());
      auto & p = plan[i];
      if (!p.begun && state != "standbyState") {
        p.begun = true;
        p.begun_at = frame;
        k.apply(p.ops[0], told, asked, p.ramps, previous);   // the time at which the storyboard was evaluated
        for (auto & x : p.ramps) active.push_back(x);
        begun += std::string(" ") + names_of[p.ops[0].kind];
        probe(names_of[p.ops[0].kind]);
        ++done;
        fingerprint = fingerprint * 1000003 + static_cast<u64>(p.ops[0].kind) * 97 + frame;
      }
      if (p.begun && !p.ended && state == "completeState") {
        p.ended = true;
        probe((std::string("end of ") + names_of[p.ops[0].kind]).c_str());
        // nobody is still at it
        if (p.ops[0].kind == Op::LANE || p.ops[0].kind == Op::LANE_RELATIVE || p.ops[0].kind == Op::TRAJECTORY)
          for (auto & m : k.all(p.ops[0])) check((*orders)[m].left == 0, "ended-early", std::string("the ") + names_of[p.ops[0].kind] + " of " + p.ops[0].actor + " ends while " + m + " is still at it");
        if (p.ops[0].kind == Op::LINEAR)
          for (auto & x : p.ramps) {
            const double took = f.time - x.begun, due = std::abs(x.to - x.from) / x.rate;
            if (seen.count(x.entity)) check(close(seen[x.entity].vx, x.to, 1e-6), "ended-early", "the change of the speed of " + x.entity + " to " + str(x.to) + " ends at " + str(seen[x.entity].vx));
            check(took > due - 3 * k.step, "speed-change-time", "the change of the speed of " + x.entity + " from " + str(x.from) + " to " + str(x.to) + " ends after " + str(took) + " s instead of " + str(due));
          }
      }
      if (p.begun && !p.ended) {
        const auto kind = p.ops[0].kind;
        double due = infinity;
        if (kind <= Op::STEP_RELATIVE || kind == Op::CONTROLLER) due = 1;
        if (kind == Op::LINEAR) { due = 0; for (auto & x : p.ramps) due = std::max(due, std::abs(x.to - x.from) / x.rate / k.step); }
        if (kind == Op::LANE || kind == Op::LANE_RELATIVE || kind == Op::TRAJECTORY) { due = 0; for (auto & m : k.all(p.ops[0])) due = std::max<double>(due, (*patience)[m]); }
        check(static_cast<double>(frame - p.begun_at) <= due + 5, "never-ends", std::string("the ") + names_of[kind] + " of " + p.ops[0].actor + " has not ended after " + std::to_string(frame - p.begun_at) + " frames");
      }
    }
    const std::string when = begun.empty() ? " while nothing begins" : " at the beginning of" + begun;
    std::sort(asked.begin(), asked.end());
    std::sort(requests.begin(), requests.end());
    check(asked == requests, "requests", "the simulator is asked for " + joined(requests) + " instead of " + joined(asked) + when);
    requests.clear();
    for (auto & n : names) {
      auto & o = (*orders)[n];
      check(o.list == told[n], "orders", "the behaviour of " + n + " is told " + joined(o.list) + " instead of " + joined(told[n]) + when);
      o.list.clear();
      auto & e = k.now[n];
      check(e.added == (seen.count(n) > 0), e.added ? "entity-missing" : "entity-there", n + (e.added ? " is missing" : " is there") + when);
      if (!e.added) continue;
      auto & s = seen[n];
      // near a lane, height and heading are those of the lane
      const bool near = e.y > -60 && e.y < 70;
      check(close(s.x, e.x, 2e-3) && close(s.y, e.y, 2e-3) && (near || (close(s.z, e.z, 2e-3) && std::abs(std::remainder(s.yaw - e.yaw, 2 * M_PI)) < 2e-3)), "pose",
        n + " is at (" + str(s.x) + ", " + str(s.y) + ", " + str(s.z) + ") heading " + str(s.yaw) + " instead of (" + str(e.x) + ", " + str(e.y) + ", " + str(e.z) + ") heading " + str(e.yaw) + when);
      bool ramp = false;
      for (auto it = active.begin(); it != active.end();) {
        if (it->entity != n) { ++it; continue; }
        ramp = true;
        const double passed = f.time - it->begun, sign = it->to > it->from ? 1 : -1;
        // the speed lies on the ramp, give or take a few frames
        const double fast = it->from + sign * std::min(std::abs(it->to - it->from), it->rate * (passed + 3 * k.step)), slow = it->from + sign * std::clamp(it->rate * (passed - 3 * k.step), 0.0, std::abs(it->to - it->from));
        check((s.vx - slow) * sign > -1e-6 && (fast - s.vx) * sign > -1e-6, "speed-change", n + " has speed " + str(s.vx) + " " + str(passed) + " s after the beginning of a change from " + str(it->from) + " to " + str(it->to) + " at " + str(it->rate) + " m/s^2");
        it = passed > std::abs(it->to - it->from) / it->rate + 3 * k.step ? active.erase(it) : std::next(it);
      }
      if (e.settling) check(s.vx > -1e-6 && s.vx < *e.target + 1e-6, "speed", n + " has speed " + str(s.vx) + " on the way from zero to " + str(*e.target) + when);
      else if (!ramp) check(close(s.vx, e.v, 1e-6), "speed", n + " has speed " + str(s.vx) + " instead of " + str(e.v) + when);
      if (e.limits_known && k.type[n] != "miscellaneous" && frame > 3) {
        auto & d = o.limits.dynamic_constraints;
        auto want = [&](const char * x) { return e.limits.count(x) ? e.limits.at(x) : limit_names.at(x).second; };
        for (auto [x, got] : {std::pair{"maxAcceleration", d.max_acceleration}, {"maxAccelerationRate", d.max_acceleration_rate}, {"maxDeceleration", d.max_deceleration}, {"maxDecelerationRate", d.max_deceleration_rate}, {"maxSpeed", d.max_speed}})
          check(close(got, want(x), 1e-9), "limits", std::string(x) + " of " + n + " is " + str(got) + " instead of " + str(want(x)) + when);
        const bool blind = e.limits.count("isBlind") && e.limits.at("isBlind") > 0;
        check(o.limits.see_around == !blind, "limits", n + (blind ? " sees although it is blind" : " is blind") + when);
      }
    }
  };
  r.node->configure();
  check(r.state() == Primary::PRIMARY_STATE_INACTIVE, "scenario-refused", "a valid scenario is refused: " + osc::text(verdict(r.output)));
  r.node->activate();
  check(r.active(), "scenario-refused", "a valid scenario cannot be started: " + osc::text(verdict(r.output)));
  for (int i = 0; i < frames && r.active(); ++i) {
    if (fault("frame_late", 1, 10)) sim::sleep_ns(static_cast<i64>(choose(F, 300)) * ms);
    serve(r, static_cast<i64>(1e9 / k.rate), [&] { return !r.active(); });
  }
  if (!r.active()) violation("ended-by-itself", "the scenario ended although nothing ends it: " + osc::text(verdict(r.output)));
  for (auto & p : plan) check(p.begun || frame < 10 || p.time > static_cast<double>(frames - 6) * k.step, "never-begins", "the event at " + str(p.time) + " has not begun");
  count("actions", done);
  if (done > 2) nontrivial(fingerprint);
  sample(std::to_string(names.size()) + " entities, " + std::to_string(plan.size()) + " actions, " + std::to_string(done) + " executed");
}
