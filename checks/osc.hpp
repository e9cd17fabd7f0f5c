// Scenarios in OpenSCENARIO XML run by the interpreter node, and what it says about them.
#pragma once
#include "world.hpp"
#include <boost/json.hpp>
#include <lifecycle_msgs/msg/state.hpp>
#include <openscenario_interpreter/openscenario_interpreter.hpp>
#include <openscenario_interpreter_msgs/msg/context.hpp>
#include <pugixml.hpp>
#include <status_monitor/status_monitor.hpp>
#include <tier4_simulation_msgs/msg/simulation_events.hpp>
#include <tier4_simulation_msgs/msg/user_defined_value.hpp>

namespace osc
{
using namespace sim;
using namespace world;
using Node = openscenario_interpreter::Interpreter;
using Primary = lifecycle_msgs::msg::State;

inline std::string quote(const std::string & s)
{
  std::string o;
  for (char c : s) if (c == '&') o += "&amp;"; else if (c == '<') o += "&lt;"; else if (c == '>') o += "&gt;"; else if (c == '"') o += "&quot;"; else o += c;
  return o;
}
inline std::string num(double v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }

struct Text
{
  std::string parameters, signals, entities, init, stories, stop;
  std::string operator()() const
  {
    return "<?xml version=\"1.0\"?>\n<OpenSCENARIO><FileHeader revMajor=\"1\" revMinor=\"3\" date=\"2024-01-01T00:00:00\" description=\"\" author=\"\"/>"
      "<ParameterDeclarations>" + parameters + "</ParameterDeclarations><CatalogLocations/>"
      "<RoadNetwork><LogicFile filepath=\"" + map_directory() + "\"/><TrafficSignals>" + signals + "</TrafficSignals></RoadNetwork>"
      "<Entities>" + entities + "</Entities>"
      "<Storyboard><Init><Actions>" + init + "</Actions></Init>" + stories + "<StopTrigger>" + stop + "</StopTrigger></Storyboard></OpenSCENARIO>\n";
  }
};
inline std::string vehicle(const std::string & name, const std::string & controller = "sim/Recorder", const std::string & properties = "", const std::string & body = "")
{
  return "<ScenarioObject name=\"" + name + "\">" + (body.empty() ?
    "<Vehicle name=\"car\" vehicleCategory=\"car\"><BoundingBox><Center x=\"1.5\" y=\"0\" z=\"0.9\"/><Dimensions width=\"2.1\" length=\"4.5\" height=\"1.8\"/></BoundingBox>"
    "<Performance maxSpeed=\"69.444\" maxAcceleration=\"200\" maxDeceleration=\"10\"/><Axles>"
    "<FrontAxle maxSteering=\"0.5\" wheelDiameter=\"0.6\" trackWidth=\"1.8\" positionX=\"3.1\" positionZ=\"0.3\"/>"
    "<RearAxle maxSteering=\"0\" wheelDiameter=\"0.6\" trackWidth=\"1.8\" positionX=\"0\" positionZ=\"0.3\"/></Axles><Properties/></Vehicle>" : body) +
    "<ObjectController><Controller name=\"" + controller + "\"><Properties>" + properties + "</Properties></Controller></ObjectController></ScenarioObject>";
}
inline std::string lane_position(int id, double s, double offset = 0)
{
  return "<Position><LanePosition roadId=\"\" laneId=\"" + std::to_string(id) + "\" s=\"" + num(s) + "\" offset=\"" + num(offset) + "\"/></Position>";
}
inline std::string teleport(const std::string & position) { return "<PrivateAction><TeleportAction>" + position + "</TeleportAction></PrivateAction>"; }
inline std::string command(const std::string & type, const std::string & content = "") { return "<UserDefinedAction><CustomCommandAction type=\"" + quote(type) + "\">" + quote(content) + "</CustomCommandAction></UserDefinedAction>"; }

struct Frame { double time; boost::json::value json; i64 stamp; };

// what result.junit.xml says
struct Verdict { int cases = 0, pass = 0; std::vector<std::pair<std::string, std::string>> failures, errors; std::string suites, suite, name; bool there = false; };
inline Verdict verdict(const std::string & directory)
{
  Verdict v;
  pugi::xml_document d;
  if (!std::filesystem::exists(directory + "/result.junit.xml")) return v;
  v.there = true;
  check(bool(d.load_file((directory + "/result.junit.xml").c_str())), "verdict-unreadable", "result.junit.xml is no XML");
  v.suites = d.child("testsuites").attribute("name").value();
  for (auto & s : d.child("testsuites").children("testsuite")) for (auto & c : s.children("testcase")) {
    ++v.cases;
    v.suite = s.attribute("name").value();
    v.name = c.attribute("name").value();
    bool bad = false;
    for (auto & f : c.children("failure")) { v.failures.push_back({f.attribute("type").value(), f.attribute("message").value()}); bad = true; }
    for (auto & e : c.children("error")) { v.errors.push_back({e.attribute("type").value(), e.attribute("message").value()}); bad = true; }
    v.pass += !bad;
  }
  return v;
}
inline std::string text(const Verdict & v)
{
  if (!v.there) return "no verdict";
  std::string s = std::to_string(v.cases) + " case(s):";
  for (auto & f : v.failures) s += " failure " + f.first + " (" + f.second + ")";
  for (auto & e : v.errors) s += " error " + e.first + " (" + e.second + ")";
  return v.failures.empty() && v.errors.empty() ? s + " passed" : s;
}

struct Rig
{
  Simulator * simulator = nullptr;
  std::shared_ptr<Node> node;
  rclcpp::executors::SingleThreadedExecutor executor;
  double rate = 30, factor = 1;
  std::string path, output;
  std::vector<Frame> frames;                       // the last context only, unless keep
  std::function<void(const Frame &)> on_frame;
  u64 count = 0;
  std::uint8_t state() const { return node->get_current_state().id(); }
  bool active() const { return state() == Primary::PRIMARY_STATE_ACTIVE; }
};
using Parameters = std::decay_t<decltype(simros::network().parameters)>;
inline Rig * boot(double rate, double factor, const std::function<void(Parameters &)> & more = {})
{
  auto * r = new Rig;
  r->simulator = start();
  r->rate = rate;
  r->factor = factor;
  r->path = scratch() + "/work/suite/case.xosc";
  r->output = scratch() + "/output";
  std::filesystem::create_directories(scratch() + "/work/suite");
  std::filesystem::create_directories(r->output);
  {
    NoInstrument guard;
    auto & p = simros::network().parameters;
    p["use_sim_time"] = rclcpp::ParameterValue(false);
    p["osc_path"] = rclcpp::ParameterValue(r->path);
    p["output_directory"] = rclcpp::ParameterValue(r->output);
    p["local_frame_rate"] = rclcpp::ParameterValue(rate);
    p["local_real_time_factor"] = rclcpp::ParameterValue(factor);
    p["consider_pose_by_road_slope"] = rclcpp::ParameterValue(false);
    if (more) more(p);
    simzmq::net().max_delay = 300 * us;
  }
  simzmq::net().peer_time = [] { return fault("simulator_slow", 1, 10) ? static_cast<i64>(choose(F, 80)) * ms : static_cast<i64>(choose(sim::S, 3)) * 100 * us; };
  simros::observe<openscenario_interpreter_msgs::msg::Context>("/context", [r](const auto & m) {
    Frame f;
    f.time = m.time;
    f.stamp = sim::now();
    if (!m.data.empty()) {
      boost::system::error_code e;
      f.json = boost::json::parse(m.data, e);
      check(!e, "context-unreadable", "the context is no JSON");
    }
    ++r->count;
    if (r->on_frame) r->on_frame(f);
    r->frames.assign(1, std::move(f));
  });
  r->node = std::make_shared<Node>(rclcpp::NodeOptions());
  r->executor.add_node(r->node->get_node_base_interface());
  return r;
}
inline void write(Rig & r, const std::string & scenario)
{
  std::ofstream(r.path) << scenario;
  if (std::getenv("SIM_KEEP")) std::ofstream(std::string(std::getenv("SIM_KEEP"))) << scenario;
}
// serve the node for `d`, as its main function does
inline void serve(Rig & r, i64 d, const std::function<bool()> & until = {})
{
  const i64 end = now() + d;
  while (now() < end && !(until && until())) {
    r.executor.spin_some();
    common::status_monitor.touch("main");
    sim::sleep_ns(std::max<i64>(1, std::min<i64>(end - now(), 2 * ms)));
  }
}
}  // namespace osc
