// C11: the lttng tracepoints with recording macros in place of lttng-ust's
#define VH_MAIN
#include "h.h"
#include <thread>
#include <mutex>
#include <scalopus_tracing/trace_macro.h>
#include <scalopus_tracing/trace_configurator.h>
#include "scalopus_tracing/lttng_tracepoint.h"
using namespace scalopus;
struct Ev { std::string prov, name; std::map<std::string, long long> f; std::map<std::string, unsigned long long> size; };
static thread_local std::vector<Ev> evs;
extern "C" void scv_event(const char* p, const char* n) { evs.push_back({ p, n, {}, {} }); }
extern "C" void scv_field(const char* n, long long v, unsigned long long s, bool) { evs.back().f[n] = v; evs.back().size[n] = s; }
extern "C" void scv_event_end() {}
static std::vector<Ev> take() { auto r = evs; evs.clear(); return r; }
static void expect(bool on, const std::string& name, unsigned id, const long long* value, const char* what)
{
  auto r = take();
  CHECK(r.size() == (on ? 1u : 0u), "%s (id %u): %zu events with tracing %s", what, id, r.size(), on ? "enabled" : "disabled");
  if (!on) return;
  CHECK(r[0].prov == "scalopus_scope_id" && r[0].name == name, "%s: event %s, expected %s", what, r[0].name.c_str(), name.c_str());
  CHECK(r[0].f.size() == (value ? 2u : 1u) && r[0].f.count("id") && r[0].f["id"] == (long long)id && r[0].size["id"] == 4, "%s: id is %lld, expected %u", what, r[0].f["id"], id);
  if (value) CHECK(r[0].f.count("value") && r[0].f["value"] == *value && r[0].size["value"] == 8, "%s: value is %lld, expected %lld", what, r[0].f["value"], *value);
}
static const char* levels[] = { "mark_event_global", "mark_event_process", "mark_event_thread" };
static const MarkLevel lv[] = { MarkLevel::GLOBAL, MarkLevel::PROCESS, MarkLevel::THREAD };
static const unsigned ids[] = { 0, 1, 2, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000u, 0xdeadbeef, 0xffffffffu };
static const long long vals[] = { 0, 1, -1, 127, -128, 255, 65536, 2147483647, -2147483648LL, 4294967296LL, 9223372036854775807LL, -9223372036854775807LL - 1 };
static void all(bool on, bool direct)
{
  for (unsigned id : ids)
  {
    direct ? lttng::scope_entry(id) : scope_entry(id); expect(on, "scope_entry", id, nullptr, "scope_entry");
    direct ? lttng::scope_exit(id) : scope_exit(id); expect(on, "scope_exit", id, nullptr, "scope_exit");
    for (int l = 0; l < 3; l++) { direct ? lttng::mark_event(id, lv[l]) : mark_event(id, lv[l]); expect(on, levels[l], id, nullptr, "mark_event"); }
    for (long long v : vals) { direct ? lttng::count_event(id, v) : count_event(id, v); expect(on, "count_event", id, &v, "count_event"); }
    { TraceRAII r(id); expect(on, "scope_entry", id, nullptr, "TraceRAII"); }
    expect(on, "scope_exit", id, nullptr, "~TraceRAII");
  }
}
static void flags()
{
  auto c = TraceConfigurator::getInstance();
  for (int rep = 0; rep < 3; rep++)
    for (int m = 0; m < 4; m++)
    {
      c->setProcessState(m & 1); c->setThreadState(m & 2);
      all(m == 3, false);
      all(m == 3, true);
    }
  c->setProcessState(true); c->setThreadState(true);
}
CASE("C11", "every tracepoint under every setting of the flags") { flags(); }
CASE("C11", "a thread started while disabled, others unaffected")
{
  auto c = TraceConfigurator::getInstance();
  all(true, false);
  c->setThreadState(false);
  std::thread([&] { all(true, false); c->setThreadState(false); all(false, true); c->setThreadState(true); all(true, false); }).join();
  all(false, false);
  c->setThreadState(true);
  all(true, false);
  c->setProcessState(false);
  std::thread([&] { all(false, false); c->setProcessState(true); all(true, true); }).join();
  std::thread([&] { flags(); }).join();
  all(true, false);
}
CASE("C11", "first call while disabled")
{
  auto c = TraceConfigurator::getInstance();
  c->setProcessState(false);
  all(false, false);
  c->setProcessState(true);
  all(true, false);
  std::thread([&] { c->setThreadState(false); all(false, false); c->setThreadState(true); all(true, false); }).join();
}
CASE("C11", "flag changed within a scope")
{
  auto c = TraceConfigurator::getInstance();
  { TraceRAII r(5); expect(true, "scope_entry", 5, nullptr, "TraceRAII"); c->setThreadState(false); }
  expect(false, "scope_exit", 5, nullptr, "~TraceRAII");
  { TraceRAII r(6); expect(false, "scope_entry", 6, nullptr, "TraceRAII"); c->setThreadState(true); }
  expect(true, "scope_exit", 6, nullptr, "~TraceRAII");
  { TraceRAII r(7); take(); { TraceRAII q(8); expect(true, "scope_entry", 8, nullptr, "inner"); } expect(true, "scope_exit", 8, nullptr, "inner"); }
  expect(true, "scope_exit", 7, nullptr, "outer");
}
// the event's id must be registered under the name
static void named(const char* ev, const std::string& name, const long long* v, unsigned* id, const char* what)
{
  CHECK(evs.size() == 1, "%s: %zu events", what, evs.size());
  unsigned i = (unsigned)evs[0].f["id"];
  CHECK(StaticStringTracker::getInstance().exists(i) && StaticStringTracker::getInstance().getValue(i) == name, "%s: id %x is not registered as '%s'", what, i, name.c_str());
  if (id) *id = i;
  expect(true, ev, i, v, what);
}
CASE("C11", "macros")
{
  for (int rep = 0; rep < 3; rep++)
  {
    { TRACE_SCOPE_RAII("alpha"); unsigned i; named("scope_entry", "alpha", nullptr, &i, "TRACE_SCOPE_RAII");
      TRACE_SCOPE_RAII("alpha2"); unsigned j; named("scope_entry", "alpha2", nullptr, &j, "TRACE_SCOPE_RAII"); CHECK(i != j, "two scopes, one id"); }
    { auto r = take(); CHECK(r.size() == 2 && r[0].name == "scope_exit" && r[1].name == "scope_exit" && StaticStringTracker::getInstance().getValue((unsigned)r[0].f["id"]) == "alpha2" && StaticStringTracker::getInstance().getValue((unsigned)r[1].f["id"]) == "alpha", "scope ends"); }
    { TRACE_PRETTY_FUNCTION(); named("scope_entry", __PRETTY_FUNCTION__, nullptr, nullptr, "TRACE_PRETTY_FUNCTION"); }
    take();
    unsigned a, b;
    TRACE_SCOPE_START("beta"); named("scope_entry", "beta", nullptr, &a, "TRACE_SCOPE_START");
    TRACE_SCOPE_END("beta"); named("scope_exit", "beta", nullptr, &b, "TRACE_SCOPE_END");
    CHECK(a == b, "start and end have different ids");
    TRACE_MARK_EVENT_GLOBAL("g"); named(levels[0], "g", nullptr, nullptr, "TRACE_MARK_EVENT_GLOBAL");
    TRACE_MARK_EVENT_PROCESS("p"); named(levels[1], "p", nullptr, nullptr, "TRACE_MARK_EVENT_PROCESS");
    TRACE_MARK_EVENT_THREAD("t"); named(levels[2], "t", nullptr, nullptr, "TRACE_MARK_EVENT_THREAD");
    for (long long v : vals)
    {
      TRACE_COUNT_SERIES("c", "s", v); named("count_event", "c/s", &v, nullptr, "TRACE_COUNT_SERIES");
      TRACE_COUNT("d", v); named("count_event", "d/", &v, nullptr, "TRACE_COUNT");
    }
    long long m = -3; int n = -3;
    TRACE_COUNT("e", n); named("count_event", "e/", &m, nullptr, "TRACE_COUNT of an int");
    m = 3; TRACE_COUNT("e", 3.7); named("count_event", "e/", &m, nullptr, "TRACE_COUNT of a double");
    if (rep == 1) std::thread([&] { TRACE_COUNT("f", 3); named("count_event", "f/", &m, nullptr, "TRACE_COUNT on another thread"); }).join();
  }
}
