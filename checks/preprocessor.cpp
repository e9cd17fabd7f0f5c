// C21: the preprocessor. Several clients load, derive, check and override at the same time; the history must be that of a queue.
#include "osc.hpp"
#include <openscenario_preprocessor/openscenario_preprocessor.hpp>
#include <sim/os/os.hpp>
#include <sys/resource.h>

using namespace sim;
using namespace osc;

namespace
{
using Load = openscenario_preprocessor_msgs::srv::Load;
using Derive = openscenario_preprocessor_msgs::srv::Derive;
using Check = openscenario_preprocessor_msgs::srv::CheckDerivativeRemained;
using Set = openscenario_preprocessor_msgs::srv::SetParameter;

struct File
{
  std::string path, text;                                  // as written by the user
  std::vector<std::pair<std::string, std::string>> parameters;
  bool compliant = true, readable = true;
};
// what one load met, in the order in which the validator was asked
struct Attempt { std::string path, fault; };

struct Op
{
  enum Kind { LOAD, DERIVE, CHECK, SET } kind;
  std::size_t file = 0;
  double rate = 0;
  std::string name, value;
  u64 called = 0, answered = 0;
  bool done = false, yes = false;                          // success, remaining
  std::string path, message;                               // of the answer
  double got = 0;
};
struct Disk { std::string now, raw; bool there = true; };   // what a path and its original hold
struct State
{
  std::deque<std::pair<std::size_t, double>> queue;
  std::map<std::string, std::string> overrides;
  std::vector<Disk> disk;
};

// the document with its declared parameters overridden, in one form
std::string canonical(const pugi::xml_document & d)
{
  std::ostringstream o;
  d.save(o, "", pugi::format_raw | pugi::format_no_declaration);
  return o.str();
}
std::string canonical(const std::string & text)
{
  pugi::xml_document d;
  if (!d.load_string(text.c_str())) return "unreadable";
  return canonical(d);
}
std::string overridden(const std::string & text, const std::map<std::string, std::string> & by)
{
  pugi::xml_document d;
  d.load_string(text.c_str());
  for (auto p : d.child("OpenSCENARIO").child("ParameterDeclarations").children("ParameterDeclaration"))
    if (auto it = by.find(p.attribute("name").value()); it != by.end()) p.attribute("value").set_value(it->second.c_str());
  return canonical(d);
}
std::string slurp(const std::string & path)
{
  std::ifstream f(path, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
// the words of a command line
std::vector<std::string> words(const std::string & s)
{
  std::vector<std::string> out;
  std::string x;
  bool in = false;
  for (std::size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '\'') { in = true; for (++i; i < s.size() && s[i] != '\''; ++i) x += s[i]; }
    else if (s[i] == '"') { in = true; for (++i; i < s.size() && s[i] != '"'; ++i) { if (s[i] == '\\' && i + 1 < s.size()) ++i; x += s[i]; } }
    else if (s[i] == '\\' && i + 1 < s.size()) { in = true; x += s[++i]; }
    else if (s[i] == ' ') { if (in) out.push_back(x); x.clear(); in = false; }
    else { in = true; x += s[i]; }
  }
  if (in) out.push_back(x);
  return out;
}
void room(rlim_t n)
{
  struct rlimit r{};
  getrlimit(RLIMIT_FSIZE, &r);
  r.rlim_cur = std::min(n, r.rlim_max);
  setrlimit(RLIMIT_FSIZE, &r);
}

struct Judge
{
  const std::vector<File> & files;
  const std::vector<Op> & ops;
  const std::vector<Attempt> & attempts;
  const std::vector<std::pair<std::string, std::string>> & end;   // canonical content of each path and its original
  std::string furthest;
  std::size_t best = 0;
  u64 tried = 0;

  // carries an operation out; the reason why it cannot have been
  std::string step(State & s, std::size_t & load, const Op & o) const
  {
    switch (o.kind) {
      case Op::SET: s.overrides[o.name] = o.value; return "";
      case Op::CHECK: return o.yes == !s.queue.empty() ? "" : std::string("check says ") + (o.yes ? "true" : "false") + ", but " + std::to_string(s.queue.size()) + " scenario(s) remain";
      case Op::DERIVE:
        if (s.queue.empty()) return o.path == "no output" ? "" : "derive gives " + o.path.substr(o.path.rfind('/') + 1) + ", but nothing remains";
        else {
          const auto f = s.queue.front();
          s.queue.pop_front();
          if (o.path != files[f.first].path) return "derive gives " + o.path.substr(o.path.rfind('/') + 1) + " instead of " + files[f.first].path.substr(files[f.first].path.rfind('/') + 1);
          if (o.got != f.second) return "derive gives the frame rate " + num(o.got) + " instead of " + num(f.second);
          return "";
        }
      default: {
        if (load >= attempts.size()) return "a scenario is loaded without being validated";
        const auto & a = attempts[load++];
        const auto & f = files[o.file];
        if (a.path != f.path) return "the validator is asked about " + a.path.substr(a.path.rfind('/') + 1) + " instead of " + f.path.substr(f.path.rfind('/') + 1);
        auto & d = s.disk[o.file];
        const bool saved = a.fault.empty() && f.compliant && d.there && f.readable;
        if (!saved) {
          s.queue.clear();
          if (a.fault == "disk" && f.compliant && f.readable && d.there) { d.raw = d.now; d.there = false; }
          return o.yes ? "a scenario that cannot be prepared is accepted" : o.message.empty() || o.message == "success" ? "a refusal has no reason" : "";
        }
        d.raw = d.now;
        d.now = overridden(d.now, s.overrides);
        s.queue.emplace_back(o.file, o.rate);
        return o.yes ? "" : "a valid scenario is refused: " + o.message.substr(0, 150);
      }
    }
  }
  bool search(std::vector<char> & done, std::size_t n, State s, std::size_t load)
  {
    if (++tried > 200000) return true;                     // too many orders: nothing is said
    if (n == ops.size()) {
      for (std::size_t i = 0; i < files.size(); ++i) {
        const auto now = s.disk[i].there ? canonical(s.disk[i].now) : "";
        if (s.disk[i].there && end[i].first != now) { furthest = files[i].path.substr(files[i].path.rfind('/') + 1) + " holds " + end[i].first.substr(0, 900) + " instead of " + now.substr(0, 900); best = n + 1; return false; }
        const auto raw = s.disk[i].raw.empty() ? "" : canonical(s.disk[i].raw);
        if (end[i].second != raw) { furthest = "the original of " + files[i].path.substr(files[i].path.rfind('/') + 1) + (end[i].second.empty() ? " is lost" : raw.empty() ? " is moved away although it was not loaded" : " is not what was loaded"); best = n + 1; return false; }
      }
      return true;
    }
    u64 limit = ~0ull;
    for (std::size_t i = 0; i < ops.size(); ++i) if (!done[i]) limit = std::min(limit, ops[i].answered);
    for (std::size_t i = 0; i < ops.size(); ++i) {
      if (done[i] || ops[i].called > limit) continue;
      State t = s;
      auto l = load;
      const auto why = step(t, l, ops[i]);
      if (!why.empty()) { if (n >= best) { best = n; furthest = why; } continue; }
      done[i] = 1;
      if (search(done, n + 1, t, l)) return true;
      done[i] = 0;
    }
    return false;
  }
};
}  // namespace

void preprocessor_scenario()
{
  set_limits(400'000, now() + 7200ull * 1000 * ms);
  enable_fault("popen_fails", false);
  enable_fault("validator_missing", wchance(1, 6));
  enable_fault("short_read", wchance(1, 3));
  enable_fault("disk_full", wchance(1, 5));
  enable_fault("validator_slow", wchance(1, 3));
  ::signal(SIGXFSZ, SIG_IGN);
  check(chdir(scratch().c_str()) == 0, "harness", "chdir");   // no path of the sandbox in the history
  // --- the scenarios
  std::vector<File> files;
  static const char * dirs[] = {"/one", "/two words", "/one/deep er's"};
  static const char * names[] = {"/case.xosc", "/a b.xosc", "/x.y.xosc"};
  static const char * odd[] = {"", "7", "a & b", "<\"quoted\">", "it's", "two\nlines", "`y`; \\ %", "\xc3\xa9"};
  const bool plain = wchance(1, 2);                        // plain names
  for (u64 i = 0, n = 1 + w(3); i < n; ++i) {
    File f;
    const auto dir = std::string(".") + dirs[plain ? 0 : w(3)];
    std::filesystem::create_directories(dir);
    f.path = dir + "/" + std::to_string(i) + (names[plain ? 0 : w(3)] + 1);
    f.compliant = !wchance(1, 8);
    f.readable = !wchance(1, 10);
    Text t;
    for (u64 k = 0, m = w(4); k < m; ++k) {
      const auto name = "p" + std::to_string(k);
      const std::string value = odd[w(8)];
      f.parameters.push_back({name, value});
      std::string v;
      for (char c : quote(value)) v += c == '\n' ? "&#10;" : std::string(1, c);
      t.parameters += "<ParameterDeclaration name=\"" + name + "\" parameterType=\"string\" value=\"" + v + "\"/>";
    }
    // one of the same name that belongs to a part of the scenario only
    t.stories = "<Story name=\"s\"><ParameterDeclarations><ParameterDeclaration name=\"p0\" parameterType=\"string\" value=\"mine\"/></ParameterDeclarations><Act name=\"a\"><ManeuverGroup maximumExecutionCount=\"1\" name=\"g\"><Actors selectTriggeringEntities=\"false\"/>"
      "</ManeuverGroup><StartTrigger><ConditionGroup><Condition name=\"\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><SimulationTimeCondition value=\"1\" rule=\"greaterThan\"/></ByValueCondition></Condition></ConditionGroup></StartTrigger></Act></Story>";
    f.text = t();
    if (!f.readable) {
      if (wchance(1, 2)) f.text.resize(f.text.size() - 20 - w(100));
      else f.text.replace(f.text.find("greaterThan"), 11, "greaterThen");
    }
    std::ofstream(f.path) << f.text;
    files.push_back(f);
  }
  // --- the validator
  simos::Os os;
  std::vector<Attempt> attempts;
  os.on_popen = [&](const std::string & c, std::string & out) {
    const auto ws = words(c);
    check(ws.size() >= 5 && ws[0] == "ros2" && ws[1] == "run" && ws[2] == "openscenario_utility" && ws[3] == "validation.py", "command", "a command is run: " + c.substr(0, 100));
    // as the script does, it fails if there is none or one is not compliant
    bool good = true;
    std::string asked;
    for (std::size_t i = 4; i < ws.size(); ++i) {
      asked = ws[i];
      auto it = std::find_if(files.begin(), files.end(), [&](auto & f) { return f.path == ws[i]; });
      check(it != files.end(), "command", "the validator is asked about " + ws[i]);
      good = good && it->compliant;
    }
    if (fault("validator_slow", 1, 2)) sim::sleep_ns((1 + choose(F, 40)) * 100 * ms);
    attempts.push_back({asked, ""});
    if (fault("validator_missing", 1, 5)) { attempts.back().fault = "popen"; return EMFILE; }
    if (fault("disk_full", 1, 3)) { attempts.back().fault = "disk"; room(64 + choose(F, 200)); }
    if (wchance(1, 3)) out = "Validating...\n";
    out += good ? "Validation finished.\nAll xosc files given are standard compliant.\n" : "Schema error\nxosc file is not standard compliant.\n";
    if (wchance(1, 3)) out += "Bye\n";
    return 0;
  };
  // --- the node and its clients
  auto node = std::make_shared<openscenario_preprocessor::Preprocessor>(rclcpp::NodeOptions());
  rclcpp::executors::SingleThreadedExecutor executor;
  executor.add_node(node->get_node_base_interface());
  std::vector<Op> ops;
  ops.reserve(64);
  u64 clock = 0, open = 0;
  const u64 clients = 1 + w(3);
  static const double rates[] = {30, 29.97, 12.5, 60, 0.1};
  std::function<void(u64, u64)> go = [&](u64 client, u64 left) {
    if (!left) { --open; return; }
    const auto i = ops.size();
    Op o;
    const auto k = w(9);
    o.kind = k < 4 ? Op::LOAD : k < 6 ? Op::DERIVE : k < 7 ? Op::CHECK : Op::SET;
    o.file = w(files.size());
    o.rate = rates[w(5)];
    o.name = "p" + std::to_string(w(5));
    o.value = odd[w(8)];
    o.called = ++clock;
    o.answered = ~0ull;
    ops.push_back(o);
    logf("client ", client, " calls ", o.kind == Op::LOAD ? "load" : o.kind == Op::DERIVE ? "derive" : o.kind == Op::CHECK ? "check" : "set_parameter");
    const auto next = [&, i, client, left] {
      // the answer has been received
      ops[i].done = true;
      ops[i].answered = ++clock;
      logf("client ", client, " has its answer: ", ops[i].yes, " ", ops[i].path.substr(ops[i].path.rfind('/') + 1), " ", ops[i].message.substr(0, 60));
      after(static_cast<i64>(w(4)) * 30 * ms + 1, [&, client, left] { go(client, left - 1); });
    };
    const auto late = [&] { return static_cast<i64>(choose(sim::S, 8)) * 5 * ms + 100 * us; };
    after(late(), [&, i, next, late] {
      const std::string base = "/openscenario_preprocessor/";
      const auto & o = ops[i];
      if (o.kind == Op::LOAD) {
        Load::Request q;
        q.path = files[o.file].path;
        q.frame_rate = o.rate;
        simros::peer_call<Load>(base + "load", q, [&, i, next, late](const auto & a) { room(RLIM_INFINITY); const bool yes = a.has_succeeded; const std::string m = a.message; after(late(), [&, i, next, yes, m] { ops[i].yes = yes; ops[i].message = m; next(); }); });
      } else if (o.kind == Op::DERIVE) {
        simros::peer_call<Derive>(base + "derive", Derive::Request(), [&, i, next, late](const auto & a) { const std::string p = a.path; const double r = a.frame_rate; after(late(), [&, i, next, p, r] { ops[i].path = p; ops[i].got = r; next(); }); });
      } else if (o.kind == Op::CHECK) {
        simros::peer_call<Check>(base + "check", Check::Request(), [&, i, next, late](const auto & a) { const bool y = a.derivative_remained; after(late(), [&, i, next, y] { ops[i].yes = y; next(); }); });
      } else {
        Set::Request q;
        q.name = o.name;
        q.value = o.value;
        simros::peer_call<Set>(base + "set_parameter", q, [&, i, next, late](const auto &) { after(late(), [next] { next(); }); });
      }
    });
  };
  for (u64 c = 0; c < clients; ++c) {
    ++open;
    const auto n = 2 + w(clients == 1 ? 14 : clients == 2 ? 8 : 5);
    after(static_cast<i64>(w(5)) * 20 * ms + 1, [&, c, n] { go(c, n); });
  }
  while (open) {
    executor.spin_some();
    sim::sleep_ns(ms);
    check(now() < 4600ll * 1000 * ms, "no-answer", "a request is not answered");
  }
  room(RLIM_INFINITY);
  // --- the history
  std::vector<std::pair<std::string, std::string>> end;
  for (auto & f : files) {
    const auto p = std::filesystem::path(f.path);
    const auto raw = p.parent_path() / "raw" / p.filename();
    end.push_back({std::filesystem::exists(p) ? canonical(slurp(f.path)) : "", std::filesystem::exists(raw) ? canonical(slurp(raw.string())) : ""});
  }
  State begin;
  for (auto & f : files) begin.disk.push_back({f.text, "", true});
  Judge j{files, ops, attempts, end};
  std::vector<char> done(ops.size(), 0);
  const bool fine = j.search(done, 0, begin, 0);
  if (j.tried > 200000) probe("too many orders");
  u64 accepted = 0, refused = 0, derived = 0, fp = 0;
  for (auto & o : ops) {
    accepted += o.kind == Op::LOAD && o.yes;
    refused += o.kind == Op::LOAD && !o.yes;
    derived += o.kind == Op::DERIVE && o.path != "no output";
    fp = fp * 1099511628211ull + static_cast<u64>(o.kind) * 8 + o.yes * 2 + (o.path == "no output") + hash_str(o.message.substr(0, 20)) + o.called * 31 + o.answered;
  }
  check(fine, "not-a-queue", "the answers of " + std::to_string(ops.size()) + " requests do not fit together: " + j.furthest);
  count("loads", accepted + refused);
  if (refused) probe("refused");
  if (derived > 1) probe("several derived");
  for (auto & a : attempts) if (!a.fault.empty()) probe(a.fault == "disk" ? "disk full" : "no validator");
  if (accepted && ops.size() > 3) nontrivial(fp);
  sample(std::to_string(clients) + " client(s), " + std::to_string(ops.size()) + " requests: " + std::to_string(accepted) + " loads accepted, " + std::to_string(refused) + " refused, " + std::to_string(derived) + " derived");
}
