// C07: test reports (simple_junit) on a faulty disk.
#include <sim/kernel/kernel.hpp>
#include <sys/stat.h>
#include <algorithm>
#include <array>
#include <set>
#include <unistd.h>
#include <unordered_map>
#include <cmath>
#include <cstring>
#include <fstream>
#include <scenario_simulator_exception/exception.hpp>
#include <simple_junit/junit5.hpp>
#include <simple_junit/test_suites.hpp>

using namespace sim;

namespace
{
struct Crash {};
struct Disk final : FileModel
{
  bool faulty = false, opened = false, crash = false;
  i64 crash_after = -1;       // bytes that reach the disk before the machine stops
  std::size_t written = 0;
  bool owns(const char * p) override { return std::string(p).find(scratch()) == 0; }
  int on_open(const char *, bool writing) override
  {
    if (!writing) return 0;
    opened = true;
    written = 0;
    if (fault("open_fails", 1, 4)) { faulty = true; return EACCES; }
    return 0;
  }
  int on_write(const std::string &, std::size_t * n) override
  {
    if (crash) { faulty = true; return EIO; }
    if (crash_after >= 0 && written + *n > static_cast<std::size_t>(crash_after)) {
      crash = faulty = true;
      *n = crash_after - written;
      count("fault:crash_during_write");
      if (*n == 0) return EIO;
      return 0;
    }
    if (*n > 1 && fault("short_write", 1, 3)) *n = 1 + choose(F, *n - 1);
    if (fault("disk_full", 1, 12)) { faulty = true; crash = true; return ENOSPC; }
    return 0;
  }
  void on_written(const std::string &, const char *, std::size_t n) override { written += n; }
  int on_close(const std::string &) override { if (fault("close_fails", 1, 8)) { faulty = true; return EIO; } return 0; }
};
Disk * disk;

std::string text(bool empty_allowed)
{
  static const char * pieces[] = {"", "case", "a<b", "x&y", "\"quoted\"", "'single'", "line\nbreak", "\t", "日本語", "]]>", "scenario.yaml", "&amp;", "  two  spaces  ", "e\x01"};
  std::string s;
  for (u64 k = 1 + w(3); k > 0; --k) s += pieces[w(14)];
  if (s.empty() && !empty_allowed) s = "n";
  return s;
}

// ---- what was reported
struct Entry { std::string suite, name; int result; std::string type, message; double time; };

bool load(const std::string & path, pugi::xml_document & d, bool & exists)
{
  struct stat sb;
  exists = stat(path.c_str(), &sb) == 0;
  if (!exists) return false;
  std::ifstream f(path, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)), {});
  return d.load_buffer(s.data(), s.size(), pugi::parse_default | pugi::parse_ws_pcdata) && d.child("testsuites");
}

void run_suites(std::string & description, u64 & shape, bool & ok, u64 & reports)
{
  junit::TestSuites suites;
  std::map<std::pair<std::string, std::string>, Entry> model;
  const std::string path = scratch() + "/result.junit.xml";
  bool had_report = false;
  const u64 n = 1 + w(12);
  for (u64 i = 0; i < n; ++i) {
    if (w(3)) {
      Entry e{text(false), text(false), static_cast<int>(w(3)), "", text(true), static_cast<double>(range(W, 0, 5000)) / 1000.0 * (w(2) ? 1 : 0.1)};
      if (!model.empty() && w(3) == 0) { auto it = model.begin(); std::advance(it, w(model.size())); e.suite = it->first.first; if (w(2)) e.name = it->first.second; }
      suites.addTestCase(e.suite, e.name, e.time, e.result == 0 ? junit::TestResult::SUCCESS : e.result == 1 ? junit::TestResult::FAILURE : junit::TestResult::ERROR, "type", e.message);
      model.emplace(std::make_pair(e.suite, e.name), e);
      check(suites.contains(e.suite, e.name), "contains", "a recorded test case is not contained");
      shape = shape * 5 + e.result;
      continue;
    }
    disk->faulty = disk->crash = disk->opened = false;
    disk->crash_after = fault_enabled("crash_during_write") && w(2) ? range(F, 0, 400) : -1;
    description += " write(" + std::to_string(model.size()) + ")";
    suites.write(path);
    ++reports;
    double total = 0;
    std::map<std::string, double> per_suite;
    for (auto & [k, e] : model) { total += e.time; per_suite[e.suite] += e.time; }
    double low = 0, high = 0;      // recorded defect: TestSuites::getTotalTime adds the times of the suites up in an int
    for (auto & [k, t] : per_suite) { low += std::trunc(t - 1e-6); high += std::trunc(t + 1e-6); }
    auto total_is = [&](double stated, const char * cls, const std::string & where) {
      if (std::abs(stated - total) < 1e-6 * (1 + total)) return;
      const auto text = where + " states a total of " + std::to_string(stated) + " s, the test cases sum up to " + std::to_string(total) + " s";
      if (stated == std::trunc(stated) && low <= stated && stated <= high) check_known(false, "total-time-truncated", text);
      else violation(cls, text);
    };
    pugi::xml_document d;
    bool exists;
    bool parsed = load(path, d, exists);
    if (!disk->faulty) check(parsed, "report-unreadable", "the report written without any disk error does not parse");
    if (!parsed) { had_report = false; continue; }
    // whatever is readable must be the whole report of now, never an older or partial one
    (void)had_report;
    std::map<std::pair<std::string, std::string>, int> seen;
    auto root = d.child("testsuites");
    u64 suites_seen = 0;
    for (auto s : root.children("testsuite")) {
      ++suites_seen;
      u64 cases = 0;
      for (auto c : s.children("testcase")) {
        ++cases;
        auto key = std::make_pair(std::string(s.attribute("name").value()), std::string(c.attribute("name").value()));
        auto m = model.find(key);
        check(m != model.end(), "report-invented", "the report contains a test case that was never added: " + key.second);
        check(++seen[key] == 1, "report-duplicate", "test case " + key.second + " is reported twice");
        int result = c.child("error") ? 2 : c.child("failure") ? 1 : 0;
        check(result == m->second.result, "report-result", "test case " + key.second + " is reported with result " + std::to_string(result) + ", recorded " + std::to_string(m->second.result));
        check(!(c.child("error") && c.child("failure")), "report-result", "one result reported as error and failure");
        if (result) check(std::string(c.child(result == 2 ? "error" : "failure").child_value()) == m->second.message, "report-text", "the description of test case " + key.second + " changed");
        check(std::string(c.attribute("classname").value()) == key.first, "report-classname", "wrong class name");
        check(std::abs(c.attribute("time").as_double() - m->second.time) < 1e-9, "report-time", "the time of a test case changed");
      }
      check(s.attribute("tests").as_ullong() == cases, "report-count", "the number of tests of a suite is wrong");
    }
    check(seen.size() == model.size(), "report-lost", std::to_string(model.size() - seen.size()) + " recorded test cases are missing in a well-formed report");
    check(root.attribute("tests").as_ullong() == suites_seen, "report-count", "the number of suites is wrong");
    total_is(root.attribute("time").as_double(), "report-total-time", "the report");
    total_is(suites.getTotalTime(), "total-time", "getTotalTime()");
    check(std::string(root.attribute("timestamp").value()).size() >= 15, "report-timestamp", "no time stamp");
    had_report = true;
  }
  ok = ok || !model.empty();
}

void run_junit5(std::string & description, u64 & shape, bool & ok, u64 & reports)
{
  common::JUnit5 junit;
  const std::string path = scratch() + "/result.junit5.xml";
  std::map<std::pair<std::string, std::string>, std::vector<Entry>> model;
  std::set<std::string> suite_names;
  std::map<std::pair<std::string, std::string>, std::array<std::string, 4>> attributes;   // assertions, time, classname, status
  if (w(2)) junit.name = text(true);
  const u64 n = 1 + w(12);
  for (u64 i = 0; i < n; ++i) {
    if (w(4)) {
      Entry e{text(false), text(false), static_cast<int>(w(4)), text(true), text(true), 0};
      if (!model.empty() && w(2)) { auto it = model.begin(); std::advance(it, w(model.size())); e.suite = it->first.first; if (w(2)) e.name = it->first.second; }
      auto & c = junit.testsuite(e.suite).testcase(e.name);
      suite_names.insert(e.suite);
      if (w(3) == 0) {
        auto & a = attributes[{e.suite, e.name}];
        const u64 which = w(4);
        a[which] = text(true);
        (which == 0 ? c.assertions : which == 1 ? c.time : which == 2 ? c.classname : c.status) = a[which];
      }
      auto & m = model[{e.suite, e.name}];
      if (e.result == 0) c.pass.push_back(common::junit::Pass());
      if (e.result == 1) c.failure.push_back(common::junit::Failure(e.type, e.message));
      if (e.result == 2) c.error.push_back(common::junit::Error(e.type, e.message));
      if (e.result != 3) m.push_back(e);      // 3: a case without a verdict yet
      shape = shape * 5 + e.result;
      continue;
    }
    disk->faulty = disk->crash = disk->opened = false;
    disk->crash_after = fault_enabled("crash_during_write") && w(2) ? range(F, 0, 400) : -1;
    unlink(path.c_str());
    description += " write5(" + std::to_string(model.size()) + ")";
    junit.write_to(path.c_str(), "  ");
    ++reports;
    pugi::xml_document d;
    bool exists;
    bool parsed = load(path, d, exists);
    if (!disk->faulty) check(parsed, "report-unreadable", "the report written without any disk error does not parse");
    if (!parsed) continue;
    auto root = d.child("testsuites");
    std::map<std::pair<std::string, std::string>, int> seen;
    std::set<std::string> suites_seen;
    u64 total[3] = {};
    if (!junit.name.empty()) check(root.attribute("name").value() == junit.name, "report-name", "the name of the report changed");
    for (auto s : root.children("testsuite")) {
      std::string sn = s.attribute("name").value();
      check(suites_seen.insert(sn).second, "report-duplicate", "a suite is reported twice");
      check(suite_names.count(sn) != 0, "report-invented", "the report contains a suite that was never added: " + sn);
      u64 counts[3] = {};
      for (auto c : s.children("testcase")) {
        auto key = std::make_pair(sn, std::string(c.attribute("name").value()));
        auto m = model.find(key);
        check(m != model.end(), "report-invented", "the report contains a test case that was never added: " + key.second);
        check(++seen[key] == 1, "report-duplicate", "test case " + key.second + " is reported twice");
        if (auto a = attributes.find(key); a != attributes.end()) {
          static const char * names[] = {"assertions", "time", "classname", "status"};
          for (int k = 0; k < 4; ++k) check(c.attribute(names[k]).value() == a->second[k], "report-attribute", "test case " + key.second + ": attribute " + names[k] + " differs from what was set");
        }
        for (int kind : {1, 2}) {
          std::vector<std::pair<std::string, std::string>> want, got;
          for (auto & e : m->second) if (e.result == kind) want.emplace_back(e.type, e.message);
          for (auto x : c.children(kind == 1 ? "failure" : "error")) got.emplace_back(x.attribute("type").value(), x.attribute("message").value());
          check(got == want, "report-result", "test case " + key.second + ": " + std::to_string(want.size()) + (kind == 1 ? " failures" : " errors") + " recorded, " + std::to_string(got.size()) + " reported, or their text differs");
        }
        for (auto & e : m->second) { ++counts[e.result]; ++total[e.result]; }
      }
      check(s.attribute("failures").as_ullong(999) == counts[1] && s.attribute("errors").as_ullong(999) == counts[2] && s.attribute("tests").as_ullong(999) == counts[0] + counts[1] + counts[2], "report-count",
            "suite " + sn + " states tests/failures/errors " + s.attribute("tests").value() + "/" + s.attribute("failures").value() + "/" + s.attribute("errors").value() + ", recorded " + std::to_string(counts[0] + counts[1] + counts[2]) + "/" + std::to_string(counts[1]) + "/" + std::to_string(counts[2]));
    }
    check(suites_seen.size() == suite_names.size() && seen.size() == model.size(), "report-lost", "recorded suites or test cases are missing in a well-formed report");
    check(root.attribute("failures").as_ullong(999) == total[1] && root.attribute("errors").as_ullong(999) == total[2] && root.attribute("tests").as_ullong(999) == total[0] + total[1] + total[2], "report-count", "the totals of the report are wrong");
  }
  ok = ok || !model.empty();
}

void scenario()
{
  disk = new Disk;
  file_model = disk;
  const bool faults = wchance(2, 3);
  for (auto k : {"open_fails", "short_write", "disk_full", "close_fails", "crash_during_write"}) enable_fault(k, faults && wchance(1, 2));
  std::string description;
  u64 shape = 1, reports = 0;
  bool ok = false;
  if (w(2)) run_suites(description, shape, ok, reports);
  else run_junit5(description, shape, ok, reports);
  sim::log(description + " " + std::to_string(shape));
  state(shape % 1000003);
  if (reports && ok) { nontrivial(hash_str(description, shape)); sample(description); }
}
}  // namespace

int main(int argc, char ** argv)
{
  return driver_main(argc, argv, {{"C07", scenario,
    "workload: 1-12 operations that record results (passes, failures, errors, repeated names, texts that need escaping) or write the report, for both report writers; "
    "faults: the disk is full, writes are short, open or close fail, the machine stops after some bytes; non-trivial: a report with at least one case was written; distinct by operations and verdicts",
    {"common/simple_junit (whole package)", "pugixml", "C stdio"},
    {"disk (real file in a scratch directory with injected errors)", "wall clock (simulated)"}}});
}
