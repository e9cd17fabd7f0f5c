// C08: storyboard elements.  C09: event priorities and execution counts.  C10: conditions and triggers.  (openscenario_interpreter)
#include "osc.hpp"

using namespace osc;

namespace
{
enum St { standby, starting, running, ending, complete, stopping };
const char * const state_names[] = {"standbyState", "startTransition", "runningState", "endTransition", "completeState", "stopTransition"};
enum Kind { STORYBOARD, INIT, STORY, ACT, GROUP, MANEUVER, EVENT, ACTION };
const char * const tags[] = {"Storyboard", "Init", "Story", "Act", "ManeuverGroup", "Maneuver", "Event", "Action"};
struct Exit { std::string type; };

struct Element;
struct Condition
{
  enum { TIME, PARAMETER, STATE } kind = TIME;
  std::string name, edge = "none", rule = "greaterThan";
  double delay = 0, value = 0;
  int parameter = 0;
  Element * target = nullptr;
  St state = complete;
  bool seen = false;                               // the element was in that state since the last evaluation
  std::vector<std::pair<double, bool>> history;
  bool current = false;
};
struct Group { std::vector<Condition *> conditions; bool current = false; };
struct Trigger { std::vector<Group> groups; bool current = false; };
struct Element
{
  Kind kind;
  std::string name, path;
  Element * parent = nullptr;
  std::vector<Element *> children;
  std::unique_ptr<Trigger> start, stop;
  u64 maximum = 1, count = 0;
  St state = standby;
  std::string priority;                            // of an event
  enum { LONG, SET, ADD, MULTIPLY, INJECT, SUCCEED, FAIL, BREAK } action = LONG;
  double duration = 0, ends = std::numeric_limits<double>::infinity();
  int parameter = 0;
  double number = 0;
};

// parameters of every type; words are numbered in their order
enum Type { INTEGER, DOUBLE, UNSIGNED, SHORT, BOOLEAN, STRING };
const char * const types[] = {"integer", "double", "unsignedInt", "unsignedShort", "boolean", "string"};
const char * const ordered[] = {"", "10", "2", "B", "a", "a b"};
std::string literal(Type t, double x)
{
  if (t == BOOLEAN) return x ? "true" : "false";
  if (t == STRING) return ordered[static_cast<int>(x)];
  char b[64];
  std::snprintf(b, sizeof b, "%.25g", x);
  return b;
}

struct Model
{
  std::vector<std::unique_ptr<Element>> elements;
  std::vector<std::unique_ptr<Condition>> conditions;
  Element * root = nullptr;
  std::vector<double> parameters;
  std::vector<Type> parameter_types;
  double time = 0;
  std::vector<std::string> injected;               // fault injection events since the last frame
  std::vector<Element *> starting_events;          // of which an action may throw
  Element * failed_event = nullptr;
  u64 transitions = 0, overridden = 0, skipped = 0, stopped = 0, edges = 0;
  u64 fingerprint = 0;

  void move(Element * e, St s)
  {
    e->state = s;
    ++transitions;
    fingerprint = fingerprint * 1000003 + hash_str(e->path) + s;
    for (auto & c : conditions) if (c->kind == Condition::STATE && c->target == e && c->state == s) c->seen = true;
  }
  void wrap(int i) { if (parameter_types[i] == SHORT) parameters[i] = std::fmod(parameters[i], 65536); }
  bool compare(double a, const std::string & rule, double b) const
  {
    return rule == "greaterThan" ? a > b : rule == "lessThan" ? a < b : rule == "equalTo" ? a == b : rule == "greaterOrEqual" ? a >= b : rule == "lessOrEqual" ? a <= b : a != b;
  }
  bool evaluate(Condition & c)
  {
    bool raw = false;
    if (c.kind == Condition::TIME) raw = compare(time, c.rule, c.value);
    else if (c.kind == Condition::PARAMETER) raw = compare(parameters[c.parameter], c.rule, c.value);
    else { raw = c.seen || c.target->state == c.state; c.seen = false; }
    c.history.push_back({time, raw});
    int last = -1;                                 // the latest evaluation that is at least `delay` ago
    for (std::size_t i = 0; i < c.history.size(); ++i) if (c.history[i].first <= time - c.delay) last = static_cast<int>(i);
    const bool paired = c.edge != "none" && c.edge != "sticky";
    if (last < (paired ? 1 : 0)) return c.current = false;
    const bool now = c.history[last].second, before = paired && c.history[last - 1].second;
    if (c.edge == "none") c.current = now;
    else if (c.edge == "sticky") c.current = c.current || now;
    else if (c.edge == "rising") c.current = now && !before;
    else if (c.edge == "falling") c.current = !now && before;
    else c.current = now != before;
    if (paired && c.current) ++edges;
    return c.current;
  }
  bool evaluate(Trigger & t)
  {
    bool any = false;
    for (auto & g : t.groups) {
      bool all = true;
      for (auto * c : g.conditions) all &= evaluate(*c);
      any |= g.current = all;
    }
    return t.current = any;
  }
  bool accomplished(Element * e) const
  {
    if (e->kind == ACTION || e->kind == INIT) return e->action != Element::LONG || e->ends < time;
    return std::all_of(e->children.begin(), e->children.end(), [](auto * c) { return c->state == complete; });
  }
  void start(Element * e)
  {
    if (e->kind == GROUP) for (auto * c : e->children) move(c, starting);
    if (e->kind == EVENT) {
      if (e->priority == "override") for (auto * sibling : e->parent->children) if (sibling->state == running) { move(sibling, stopping); ++overridden; }
      for (auto * c : e->children) move(c, starting);
    }
    if (e->kind != ACTION && e->kind != INIT) return;
    switch (e->action) {
      case Element::LONG: e->ends = time + e->duration; break;
      case Element::SET: parameters[e->parameter] = e->number; break;
      case Element::ADD: parameters[e->parameter] += e->number; wrap(e->parameter); break;
      case Element::MULTIPLY: parameters[e->parameter] *= e->number; wrap(e->parameter); break;
      case Element::INJECT: injected.push_back(e->name); break;
      case Element::SUCCEED: throw Exit{"success"};
      case Element::FAIL: failed_event = e->parent; throw Exit{"failure"};
      case Element::BREAK: throw Exit{"error"};
    }
  }
  void evaluate(Element * e)
  {
    if (e->stop && evaluate(*e->stop) && e->state != standby && e->state != stopping) move(e, stopping);
    while (true) switch (e->state) {
      case standby:
        if (e->start && !evaluate(*e->start)) return;
        move(e, starting);
        if (e->kind == EVENT && e->priority == "skip" && std::any_of(e->parent->children.begin(), e->parent->children.end(), [](auto * s) { return s->state == running; })) {
          ++skipped;
          move(e, standby);
          return;
        }
        break;
      case starting: start(e); move(e, running); ++e->count; break;
      case running:
        for (auto * c : e->children) evaluate(c);
        if (!accomplished(e)) return;
        move(e, ending);
        break;
      case ending: move(e, e->count < e->maximum ? standby : complete); break;
      case complete: return;
      case stopping:
        if (!accomplished(e)) {
          ++stopped;
          for (auto * c : e->children) { if (c->state != stopping) move(c, stopping); evaluate(c); }
        }
        move(e, complete);
        break;
    }
  }
};

// ------------------------------------------------------------------------------------------------ making scenarios
struct Emphasis { bool structure, events, conditions; };
struct Maker
{
  Model & m;
  Emphasis e;
  double horizon, step;
  int parameters;
  double between(double lo, double hi) { return (std::floor((lo + (hi - lo) * w(1000) / 1000.0) / step) + 0.371) * step; }   // never on a frame
  Element * add(Kind k, Element * parent, const std::string & name)
  {
    m.elements.push_back(std::make_unique<Element>());
    auto * x = m.elements.back().get();
    x->kind = k;
    x->name = name;
    x->parent = parent;
    x->path = !parent || parent->kind == STORYBOARD ? name : parent->path + "::" + name;
    if (parent) parent->children.push_back(x);
    return x;
  }
  double value(int parameter, i64 low, i64 high)
  {
    switch (m.parameter_types[parameter]) {
      case INTEGER: return static_cast<double>(range(W, low, high));
      case DOUBLE: return static_cast<double>(range(W, low * 2, high * 2)) / 4 + static_cast<double>(w(2)) / (1 << 26);
      case UNSIGNED:
      case SHORT: return static_cast<double>(w(static_cast<u64>(high) + 1));
      case BOOLEAN: return static_cast<double>(w(2));
      default: return static_cast<double>(w(6));
    }
  }
  Condition * condition()
  {
    m.conditions.push_back(std::make_unique<Condition>());
    auto * c = m.conditions.back().get();
    if (wchance(e.structure ? 4 : 2, 5)) c->name = "condition" + std::to_string(m.conditions.size());
    const auto k = w(e.conditions ? 3 : 6);
    c->kind = k == 1 ? Condition::PARAMETER : k == 2 || k == 5 ? Condition::STATE : Condition::TIME;
    if (wchance(e.conditions ? 3 : 1, 4)) c->edge = std::vector<const char *>{"none", "sticky", "rising", "falling", "risingOrFalling"}[w(5)];
    if (wchance(e.conditions ? 1 : 1, e.conditions ? 2 : 6)) c->delay = between(0, horizon / 3);
    c->rule = std::vector<const char *>{"greaterThan", "lessThan", "greaterOrEqual", "lessOrEqual"}[w(4)];
    if (c->kind == Condition::TIME) c->value = between(0, horizon * 0.7);
    if (c->kind == Condition::PARAMETER) {
      c->parameter = static_cast<int>(w(parameters));
      c->rule = std::vector<const char *>{"greaterThan", "lessThan", "equalTo", "notEqualTo", "greaterOrEqual", "lessOrEqual"}[w(6)];
      c->value = value(c->parameter, -2, 6);
    }
    return c;
  }
  std::unique_ptr<Trigger> trigger()
  {
    auto t = std::make_unique<Trigger>();
    const auto groups = 1 + w(e.conditions ? 3 : 2);
    for (u64 g = 0; g < groups; ++g) {
      t->groups.emplace_back();
      const auto n = 1 + w(e.conditions ? 3 : 2);
      for (u64 i = 0; i < n; ++i) t->groups.back().conditions.push_back(condition());
    }
    return t;
  }
  void action(Element * event, int i, bool may_end)
  {
    auto * a = add(ACTION, event, event->name + "_action" + std::to_string(i));
    const auto k = w(12);
    a->action = k < 5 ? Element::LONG : k < 7 ? Element::SET : k == 7 ? Element::ADD : k == 8 ? Element::MULTIPLY : Element::INJECT;
    if (may_end && wchance(1, 12)) a->action = std::vector{Element::SUCCEED, Element::FAIL, Element::BREAK}[w(3)];
    a->duration = wchance(1, 5) ? 0 : between(0, horizon / 2);
    a->parameter = static_cast<int>(w(parameters));
    const auto type = m.parameter_types[a->parameter];
    if (type >= BOOLEAN && (a->action == Element::ADD || a->action == Element::MULTIPLY)) a->action = Element::SET;
    if (a->action == Element::MULTIPLY) a->number = static_cast<double>(range(W, type == UNSIGNED || type == SHORT ? 0 : -1, 2));
    else if (a->action == Element::ADD && (type == UNSIGNED || type == SHORT)) a->number = static_cast<double>(w(6));
    else a->number = value(a->parameter, -3, 5);
  }
  void make()
  {
    m.root = add(STORYBOARD, nullptr, "Storyboard");
    auto * init = add(INIT, m.root, "Init");
    init->action = Element::INJECT;
    if (wchance(1, 3)) m.root->stop = trigger();
    const bool may_end = wchance(1, 2);
    int n = 0;
    auto name = [&](const char * what) { return what + std::to_string(n++); };
    const auto stories = 1 + w(e.structure ? 2 : 1);
    for (u64 s = 0; s < stories; ++s) {
      auto * story = add(STORY, m.root, name("story"));
      const auto acts = 1 + w(e.structure ? 3 : 1);
      for (u64 a = 0; a < acts; ++a) {
        auto * act = add(ACT, story, name("act"));
        if (wchance(1, 2)) act->start = trigger();
        if (wchance(1, 2)) act->stop = trigger();
        const auto groups = 1 + w(e.structure ? 2 : 1);
        for (u64 g = 0; g < groups; ++g) {
          auto * group = add(GROUP, act, name("group"));
          const auto maneuvers = 1 + w(e.structure ? 2 : 1);
          for (u64 v = 0; v < maneuvers; ++v) {
            auto * maneuver = add(MANEUVER, group, name("maneuver"));
            const auto events = 1 + w(e.events ? 5 : 3);
            for (u64 k = 0; k < events; ++k) {
              auto * event = add(EVENT, maneuver, name("event"));
              event->priority = std::vector<const char *>{"parallel", "override", "skip"}[w(3)];
              if (wchance(e.events ? 1 : 1, e.events ? 2 : 4)) event->maximum = 1 + w(3);
              if (wchance(e.events ? 2 : 1, 3)) event->start = trigger();
              const auto actions = 1 + w(2);
              for (u64 i = 0; i < actions; ++i) action(event, static_cast<int>(i), may_end);
            }
          }
        }
      }
    }
    std::vector<Element *> targets;
    for (auto & x : m.elements) if (x->kind >= STORY) targets.push_back(x.get());
    for (auto & c : m.conditions) if (c->kind == Condition::STATE) {
      c->target = targets[w(targets.size())];
      if (m.root->stop) for (auto & g : m.root->stop->groups) for (auto * x : g.conditions) if (x == c.get()) while (c->target->kind != STORY) c->target = c->target->parent;
      c->state = std::vector{complete, running, standby, ending, starting, stopping}[w(6)];
    }
  }
  // ---- as text
  std::string write(const Condition & c) const
  {
    std::string s = "<Condition name=\"" + c.name + "\" delay=\"" + num(c.delay) + "\" conditionEdge=\"" + c.edge + "\"><ByValueCondition>";
    if (c.kind == Condition::TIME) s += "<SimulationTimeCondition value=\"" + num(c.value) + "\" rule=\"" + c.rule + "\"/>";
    if (c.kind == Condition::PARAMETER) s += "<ParameterCondition parameterRef=\"number" + std::to_string(c.parameter) + "\" value=\"" + literal(m.parameter_types[c.parameter], c.value) + "\" rule=\"" + c.rule + "\"/>";
    if (c.kind == Condition::STATE) {
      auto type = std::string(tags[c.target->kind]);
      type[0] = static_cast<char>(std::tolower(type[0]));
      s += "<StoryboardElementStateCondition storyboardElementRef=\"" + c.target->path + "\" storyboardElementType=\"" + type + "\" state=\"" + state_names[c.state] + "\"/>";
    }
    return s + "</ByValueCondition></Condition>";
  }
  std::string write(const Trigger & t) const
  {
    std::string s;
    for (auto & g : t.groups) { s += "<ConditionGroup>"; for (auto * c : g.conditions) s += write(*c); s += "</ConditionGroup>"; }
    return s;
  }
  std::string action(const Element & a) const
  {
    const auto p = "<GlobalAction><ParameterAction parameterRef=\"number" + std::to_string(a.parameter) + "\">";
    switch (a.action) {
      case Element::LONG: return command("dummyLongRunningAction(" + num(a.duration) + ")");
      case Element::SET: return p + "<SetAction value=\"" + literal(m.parameter_types[a.parameter], a.number) + "\"/></ParameterAction></GlobalAction>";
      case Element::ADD: return p + "<ModifyAction><Rule><AddValue value=\"" + literal(m.parameter_types[a.parameter], a.number) + "\"/></Rule></ModifyAction></ParameterAction></GlobalAction>";
      case Element::MULTIPLY: return p + "<ModifyAction><Rule><MultiplyByValue value=\"" + literal(m.parameter_types[a.parameter], a.number) + "\"/></Rule></ModifyAction></ParameterAction></GlobalAction>";
      case Element::INJECT: return command("FaultInjectionAction@v2(ERROR, " + a.name + ")");
      case Element::SUCCEED: return command("exitSuccess");
      case Element::FAIL: return command("exitFailure");
      case Element::BREAK: return command("debugError");
    }
    return "";
  }
  std::string write(const Element & x) const
  {
    std::string attributes = " name=\"" + x.name + "\"", inside;
    if (x.kind == GROUP) { attributes += " maximumExecutionCount=\"1\""; inside += "<Actors selectTriggeringEntities=\"false\"/>"; }
    if (x.kind == EVENT) attributes += " priority=\"" + x.priority + "\" maximumExecutionCount=\"" + std::to_string(x.maximum) + "\"";
    if (x.kind == ACTION) inside += action(x);
    for (auto * c : x.children) inside += write(*c);
    if (x.start) inside += "<StartTrigger>" + write(*x.start) + "</StartTrigger>";
    if (x.stop) inside += "<StopTrigger>" + write(*x.stop) + "</StopTrigger>";
    return std::string("<") + tags[x.kind] + attributes + ">" + inside + "</" + tags[x.kind] + ">";
  }
};

// ------------------------------------------------------------------------------------------------ comparing
std::string field(const boost::json::value & v, const char * k) { return std::string(v.at(k).as_string()); }
bool boolean(const boost::json::value & v) { return field(v, "currentValue") == "true"; }

void compare(const Trigger & t, const boost::json::value & v, const std::string & where)
{
  auto & groups = v.at("ConditionGroup").as_array();
  check(groups.size() == t.groups.size(), "trigger-shape", where + " has " + std::to_string(groups.size()) + " condition groups in the context");
  for (std::size_t g = 0; g < groups.size(); ++g) {
    auto & conditions = groups[g].at("Condition").as_array();
    check(conditions.size() == t.groups[g].conditions.size(), "trigger-shape", where + " has a group of " + std::to_string(conditions.size()) + " conditions in the context");
    for (std::size_t c = 0; c < conditions.size(); ++c) {
      auto & x = *t.groups[g].conditions[c];
      static const char * kinds[] = {"time", "parameter", "state"};
      check(boolean(conditions[c]) == x.current, "condition-" + x.edge + (x.delay > 0 ? "-delayed" : "") + (x.kind == Condition::STATE ? "-of-state" : ""),
        "condition " + std::to_string(c) + " of group " + std::to_string(g) + " of " + where + " (" + kinds[x.kind] + ", edge " + x.edge + ", delay " + str(x.delay) + ") is " + (x.current ? "false instead of true" : "true instead of false") + ": " + field(conditions[c], "currentEvaluation"));
    }
    check(boolean(groups[g]) == t.groups[g].current, "condition-group", "group " + std::to_string(g) + " of " + where + " is " + (t.groups[g].current ? "false although all" : "true although not all") + " of its conditions are true");
  }
  check(boolean(v) == t.current, "trigger", where + " is " + (t.current ? "false although one" : "true although none") + " of its groups is true");
}
void compare(const Element & e, const boost::json::value & v)
{
  const auto where = std::string(tags[e.kind]) + " " + e.path;
  if (e.kind != STORYBOARD) check(field(v, "name") == e.name, "storyboard-shape", "the context has " + field(v, "name") + " in place of " + where);
  // the deepest difference tells most
  for (auto tag : {"Story", "Act", "ManeuverGroup", "Maneuver", "Event", "Action"}) {
    std::vector<const Element *> mine;
    for (auto * c : e.children) if (c->kind != INIT && !std::strcmp(tags[c->kind], tag)) mine.push_back(c);
    if (mine.empty()) continue;
    auto & theirs = v.at(tag).as_array();
    check(theirs.size() == mine.size(), "storyboard-shape", where + " has " + std::to_string(theirs.size()) + " children in the context");
    for (std::size_t i = 0; i < mine.size(); ++i) compare(*mine[i], theirs[i]);
  }
  if (e.start) compare(*e.start, v.at("StartTrigger"), "the start trigger of " + where);
  if (e.stop) compare(*e.stop, v.at("StopTrigger"), "the stop trigger of " + where);
  if (e.kind == EVENT || e.kind == GROUP) check(v.at("currentExecutionCount").to_number<u64>() == e.count, "execution-count", where + " has been executed " + std::to_string(v.at("currentExecutionCount").to_number<u64>()) + " times instead of " + std::to_string(e.count));
  check(field(v, "currentState") == state_names[e.state], std::string("state-of-") + tags[e.kind], where + " is in " + field(v, "currentState") + " instead of " + state_names[e.state]);
}

void run(Emphasis emphasis)
{
  set_limits(6'000'000, 4000 * sec);
  enable_fault("simulator_slow", wchance(1, 3));
  enable_fault("simulator_refuses", wchance(1, 3));
  enable_fault("frame_late", wchance(1, 3));
  const double rate = std::vector<double>{10, 20, 30, 5}[w(4)], factor = std::vector<double>{1, 1, 2, 0.5}[w(4)];
  auto & r = *boot(rate, factor);
  r.simulator->may_refuse = {"update_frame"};
  const int frames = 15 + static_cast<int>(w(60));
  Model m;
  Maker maker{m, emphasis, frames / rate * factor, factor / rate, 1 + static_cast<int>(w(3))};
  m.parameters.assign(maker.parameters, 0);
  for (int i = 0; i < maker.parameters; ++i) m.parameter_types.push_back(wchance(1, 2) ? INTEGER : static_cast<Type>(w(6)));
  maker.make();
  Text t;
  for (int i = 0; i < maker.parameters; ++i) {
    m.parameters[i] = maker.value(i, -1, 3);
    t.parameters += "<ParameterDeclaration name=\"number" + std::to_string(i) + "\" parameterType=\"" + types[m.parameter_types[i]] + "\" value=\"" + literal(m.parameter_types[i], m.parameters[i]) + "\"/>";
  }
  for (auto * c : m.root->children) if (c->kind == STORY) t.stories += maker.write(*c);
  if (m.root->stop) t.stop = maker.write(*m.root->stop);
  write(r, t());

  std::vector<std::string> injected;
  simros::observe<tier4_simulation_msgs::msg::SimulationEvents>("/simulation/events", [&](const auto & x) {
    for (auto & f : x.fault_injection_events) {
      check(f.level == tier4_simulation_msgs::msg::FaultInjectionEvent::ERROR, "fault-injection", "the injected fault has level " + std::to_string(static_cast<int>(f.level)));
      injected.push_back(f.name);
    }
  });
  std::string ended;
  int evaluated = 0;
  std::set<u64> distinct;
  bool have_time = false;
  double time = 0;
  r.on_frame = [&](const Frame & f) {
    check(ended.empty(), "evaluated-after-the-end", "the scenario goes on after it ended with " + ended);
    if (have_time) {
      m.time = time;
      m.injected.clear();
      try { m.evaluate(m.root); } catch (const Exit & e) { ended = e.type; }
      m.injected.erase(std::remove(m.injected.begin(), m.injected.end(), "Init"), m.injected.end());
      ++evaluated;
      logf("frame ", evaluated, " at ", time);
      compare(*m.root, f.json.at("OpenSCENARIO").at("Storyboard"));
      std::string mine, theirs;
      for (auto & s : m.injected) mine += s + " ";
      for (auto & s : injected) theirs += s + " ";
      check(mine == theirs, "action-executions", "the actions executed in this frame are [" + theirs + "] instead of [" + mine + "]");
      injected.clear();
      distinct.insert(m.fingerprint);
      state(m.fingerprint);
    }
    if (!std::isnan(f.time)) { have_time = true; time = f.time; }
  };
  r.node->configure();
  check(r.state() == Primary::PRIMARY_STATE_INACTIVE, "scenario-refused", "a valid scenario is refused: " + text(verdict(r.output)));
  r.node->activate();
  check(r.active(), "scenario-refused", "a valid scenario cannot be started: " + text(verdict(r.output)));
  for (int i = 0; i < frames + 12 && r.active(); ++i) {
    if (fault("frame_late", 1, 10)) sim::sleep_ns(static_cast<i64>(choose(F, 300)) * ms);
    serve(r, static_cast<i64>(1e9 / rate), [&] { return !r.active(); });
  }
  check(r.active() == ended.empty(), ended.empty() ? "ended-by-itself" : "not-ended", ended.empty() ? "the scenario ended although nothing ends it: " + text(verdict(r.output)) : "the scenario goes on after it ended with " + ended);
  if (!ended.empty()) {
    const auto v = verdict(r.output);
    check(v.cases == 1, "verdict", "an ended scenario left " + text(v));
    if (ended == "success") check(v.pass == 1, "verdict", "a scenario that ended with exitSuccess left " + text(v));
    if (ended == "failure") {
      check(v.failures.size() == 1 && v.errors.empty() && v.failures[0].first == "SimulationFailure", "verdict", "a scenario that ended with exitFailure left " + text(v));
      // the message tells where: by the names of the conditions if all have one, by the path of their group otherwise
      const auto & message = v.failures[0].second;
      std::vector<const Element *> up;
      for (auto * e = m.failed_event; e; e = e->parent) up.insert(up.begin(), e);
      std::string path = "OpenSCENARIO";
      for (auto * e : up) path += std::string(".") + tags[e->kind] + (e->kind == STORYBOARD ? "" : "[\"" + e->name + "\"]");
      std::size_t g = 0;
      if (m.failed_event->start) for (; g + 1 < m.failed_event->start->groups.size() && !m.failed_event->start->groups[g].current; ++g) {}
      path += ".StartTrigger.ConditionGroup[" + std::to_string(g) + "]";
      std::vector<std::string> names;
      if (m.failed_event->start) for (auto * c : m.failed_event->start->groups[g].conditions) names.push_back(c->name);
      if (!names.empty() && std::none_of(names.begin(), names.end(), [](auto & n) { return n.empty(); })) {
        for (auto & n : names) check(message.find("\"" + n + "\"") != std::string::npos, "failure-message", "the failure does not name the condition " + n + ": " + message);
        probe("failure by named conditions");
      } else check(message.find(path) != std::string::npos, "failure-message", "the failure does not point at " + path + ": " + message);
    }
    if (ended == "error") check(v.errors.size() == 1 && v.failures.empty() && v.errors[0].first == "InternalError", "verdict", "a scenario that ended with an error left " + text(v));
    probe("ended with " + ended);
  }
  check(evaluated > 0, "not-evaluated", "no frame was evaluated in " + std::to_string(frames) + " periods");
  if (m.overridden) probe("overridden");
  if (m.skipped) probe("skipped");
  if (m.stopped) probe("stopped");
  if (m.edges) probe("edge");
  count("frames evaluated", evaluated);
  if (distinct.size() > 3) nontrivial(m.fingerprint);
  sample(std::to_string(m.elements.size()) + " elements, " + std::to_string(m.conditions.size()) + " conditions, " + std::to_string(evaluated) + " frames, " + std::to_string(m.transitions) + " transitions" + (ended.empty() ? "" : ", ended with " + ended));
}
}  // namespace

void storyboard_scenario() { run({true, false, false}); }
void events_scenario() { run({false, true, false}); }
void conditions_scenario() { run({false, false, true}); }
