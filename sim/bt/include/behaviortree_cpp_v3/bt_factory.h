// A small stand-in for BehaviorTree.CPP v3: the nodes, ports and blackboard the behaviour plugins use, with v3's rules for
// Fallback and Sequence (a child that is RUNNING is resumed; children are halted and go IDLE when the node is done).
#pragma once
#include <any>
#include <chrono>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <pugixml.hpp>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
namespace BT
{
enum class NodeStatus { IDLE = 0, RUNNING, SUCCESS, FAILURE };
enum class PortDirection { INPUT, OUTPUT, INOUT };
enum class TimestampType { absolute, relative };
using TimePoint = std::chrono::high_resolution_clock::time_point;
using Duration = std::chrono::high_resolution_clock::duration;
struct RuntimeError : std::runtime_error { using std::runtime_error::runtime_error; };
struct PortInfo { PortDirection direction; };
using PortsList = std::unordered_map<std::string, PortInfo>;
template <typename T = void> std::pair<std::string, PortInfo> InputPort(const std::string & n, const std::string & = "") { return {n, {PortDirection::INPUT}}; }
template <typename T = void> std::pair<std::string, PortInfo> OutputPort(const std::string & n, const std::string & = "") { return {n, {PortDirection::OUTPUT}}; }
struct Blackboard
{
  using Ptr = std::shared_ptr<Blackboard>;
  std::unordered_map<std::string, std::any> entries;
  template <typename T> bool get(const std::string & k, T & out) const
  {
    auto it = entries.find(k);
    if (it == entries.end()) return false;
    auto p = std::any_cast<T>(&it->second);
    if (!p) throw RuntimeError("Blackboard entry [" + k + "] has another type");
    out = *p;
    return true;
  }
  template <typename T> T get(const std::string & k) const
  {
    auto it = entries.find(k);
    if (it == entries.end()) throw RuntimeError("Blackboard::get() error. Missing key [" + k + "]");
    auto p = std::any_cast<T>(&it->second);
    if (!p) throw RuntimeError("Blackboard entry [" + k + "] has another type");
    return *p;
  }
  template <typename T> void set(const std::string & k, const T & v)
  {
    auto it = entries.find(k);
    if (it != entries.end() && it->second.type() != typeid(T)) throw RuntimeError("Blackboard::set() failed: the type of port [" + k + "] must not change");
    entries[k] = v;
  }
};
struct NodeConfiguration
{
  Blackboard::Ptr blackboard;
  std::unordered_map<std::string, std::string> input_ports, output_ports;
};
struct TreeNodeManifest
{
  std::string registration_ID;
  PortsList ports;
};
class TreeNode
{
public:
  using StatusChangeCallback = std::function<void(TimePoint, const TreeNode &, NodeStatus, NodeStatus)>;
  using StatusChangeSubscriber = std::shared_ptr<StatusChangeCallback>;
  TreeNode(const std::string & name, const NodeConfiguration & config) : name_(name), config_(config) {}
  virtual ~TreeNode() = default;
  virtual NodeStatus executeTick()
  {
    const auto s = tick();
    setStatus(s);
    return s;
  }
  virtual void halt() = 0;
  NodeStatus status() const { return status_; }
  void setStatus(NodeStatus s)
  {
    const auto before = status_;
    status_ = s;
    if (before != s) for (auto & w : subscribers_) if (auto f = w.lock()) (*f)(std::chrono::high_resolution_clock::now(), *this, before, s);
  }
  const std::string & name() const { return name_; }
  const NodeConfiguration & config() const { return config_; }
  StatusChangeSubscriber subscribeToStatusChange(StatusChangeCallback f)
  {
    auto p = std::make_shared<StatusChangeCallback>(std::move(f));
    subscribers_.push_back(p);
    return p;
  }
  template <typename T> bool getInput(const std::string & port, T & out) const
  {
    auto it = config_.input_ports.find(port);
    return it != config_.input_ports.end() && config_.blackboard && config_.blackboard->get(it->second, out);
  }
  template <typename T> bool setOutput(const std::string & port, const T & v)
  {
    auto it = config_.output_ports.find(port);
    if (it == config_.output_ports.end() || !config_.blackboard) return false;
    config_.blackboard->set(it->second, v);
    return true;
  }

protected:
  virtual NodeStatus tick() = 0;

private:
  std::string name_;
  NodeConfiguration config_;
  NodeStatus status_ = NodeStatus::IDLE;
  std::list<std::weak_ptr<StatusChangeCallback>> subscribers_;
};
class ActionNodeBase : public TreeNode
{
public:
  using TreeNode::TreeNode;
};
class ControlNode : public TreeNode
{
public:
  using TreeNode::TreeNode;
  std::vector<TreeNode *> children;
  void halt() override { current_ = 0; haltChildren(); setStatus(NodeStatus::IDLE); }

protected:
  std::size_t current_ = 0;
  void haltChildren()
  {
    for (auto c : children) {
      if (c->status() == NodeStatus::RUNNING) c->halt();
      c->setStatus(NodeStatus::IDLE);
    }
  }
};
template <bool Fallback> class Ordered : public ControlNode
{
public:
  using ControlNode::ControlNode;

protected:
  NodeStatus tick() override
  {
    const auto go_on = Fallback ? NodeStatus::FAILURE : NodeStatus::SUCCESS, done = Fallback ? NodeStatus::SUCCESS : NodeStatus::FAILURE;
    setStatus(NodeStatus::RUNNING);
    while (current_ < children.size()) {
      const auto s = children[current_]->executeTick();
      if (s == NodeStatus::RUNNING) return s;
      if (s == done) { haltChildren(); current_ = 0; return s; }
      if (s == go_on) ++current_; else throw RuntimeError("A child node must never return IDLE");
    }
    haltChildren();
    current_ = 0;
    return go_on;
  }
};
using FallbackNode = Ordered<true>;
using SequenceNode = Ordered<false>;
struct Tree
{
  std::vector<std::shared_ptr<TreeNode>> nodes;
  Blackboard::Ptr blackboard;
  TreeNode * rootNode() const { return nodes.empty() ? nullptr : nodes.front().get(); }
  Blackboard::Ptr rootBlackboard() { return blackboard; }
};
inline void applyRecursiveVisitor(TreeNode * n, const std::function<void(TreeNode *)> & f)
{
  f(n);
  if (auto c = dynamic_cast<ControlNode *>(n)) for (auto k : c->children) applyRecursiveVisitor(k, f);
}
class BehaviorTreeFactory
{
public:
  BehaviorTreeFactory()
  {
    builtin_ = {"Fallback", "Sequence"};
    for (auto & b : builtin_) manifests_[b] = {b, {}};
    make_["Fallback"] = [](auto & n, auto & c) { return std::make_shared<FallbackNode>(n, c); };
    make_["Sequence"] = [](auto & n, auto & c) { return std::make_shared<SequenceNode>(n, c); };
  }
  template <typename T> void registerNodeType(const std::string & id)
  {
    manifests_[id] = {id, T::providedPorts()};
    make_[id] = [](auto & n, auto & c) { return std::make_shared<T>(n, c); };
  }
  const std::unordered_map<std::string, TreeNodeManifest> & manifests() const { return manifests_; }
  const std::set<std::string> & builtinNodes() const { return builtin_; }
  Tree createTreeFromText(const std::string & text)
  {
    pugi::xml_document d;
    if (!d.load_string(text.c_str())) throw RuntimeError("Error parsing the XML");
    Tree t;
    t.blackboard = std::make_shared<Blackboard>();
    auto root = d.child("root").child("BehaviorTree").first_child();
    if (!root) throw RuntimeError("no behaviour tree in: " + text);
    build(t, root);
    return t;
  }

private:
  std::set<std::string> builtin_;
  std::unordered_map<std::string, TreeNodeManifest> manifests_;
  std::unordered_map<std::string, std::function<std::shared_ptr<TreeNode>(const std::string &, const NodeConfiguration &)>> make_;
  TreeNode * build(Tree & t, pugi::xml_node x)
  {
    const std::string id = x.name();
    if (!make_.count(id)) throw RuntimeError("unknown node " + id);
    NodeConfiguration c;
    c.blackboard = t.blackboard;
    std::string name = id;
    for (auto a : x.attributes()) {
      std::string k = a.name(), v = a.value();
      if (k == "name") { name = v; continue; }
      if (v.size() > 2 && v.front() == '{' && v.back() == '}') v = v.substr(1, v.size() - 2); else continue;
      auto it = manifests_[id].ports.find(k);
      if (it == manifests_[id].ports.end()) throw RuntimeError("node " + id + " has no port " + k);
      if (it->second.direction != PortDirection::OUTPUT) c.input_ports[k] = v;
      if (it->second.direction != PortDirection::INPUT) c.output_ports[k] = v;
    }
    t.nodes.push_back(make_[id](name, c));
    auto * n = t.nodes.back().get();
    if (auto control = dynamic_cast<ControlNode *>(n)) for (auto k : x.children()) if (k.type() == pugi::node_element) control->children.push_back(build(t, k));
    return n;
  }
};
}  // namespace BT
