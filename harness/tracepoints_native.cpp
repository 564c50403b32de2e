// C11: the native tracepoints (against a stand-in for the absent cbor submodule)
#define VH_MAIN
#include "h.h"
#include <thread>
#include <scalopus_tracing/trace_macro.h>
#include <scalopus_tracing/trace_configurator.h>
#include "scalopus_tracing/native_tracepoint.h"
#include "tracepoint_collector_native.h"
using namespace scalopus;
static std::vector<tracepoint_collector_types::StaticTraceEvent> take()
{
  std::vector<tracepoint_collector_types::StaticTraceEvent> r;
  auto b = TracePointCollectorNative::getInstance()->getBuffer();
  b->pop_into(std::back_inserter(r), 1000);
  return r;
}
static void expect(bool on, int type, unsigned id, const long long* value, const char* what)
{
  auto r = take();
  CHECK(r.size() == (on ? 1u : 0u), "native %s (id %u): %zu events with tracing %s", what, id, r.size(), on ? "enabled" : "disabled");
  if (!on) return;
  CHECK(r[0].trace_type == type, "native %s: event type %d, expected %d", what, r[0].trace_type, type);
  CHECK(r[0].trace_id == id, "native %s: id %u, expected %u", what, r[0].trace_id, id);
  CHECK((r[0].dynamic_data != nullptr) == (value != nullptr), "native %s: dynamic data", what);
  if (value) { std::int64_t v = 0; cbor::from_cbor(v, *r[0].dynamic_data); CHECK(v == *value, "native %s: value %lld, expected %lld", what, (long long)v, *value); }
}
static const unsigned ids[] = { 0, 1, 255, 65536, 0x80000000u, 0xffffffffu };
static const long long vals[] = { 0, 1, -1, 255, -2147483648LL, 4294967296LL, 9223372036854775807LL, -9223372036854775807LL - 1 };
static const MarkLevel lv[] = { MarkLevel::GLOBAL, MarkLevel::PROCESS, MarkLevel::THREAD };
static void all(bool on)
{
  using T = TracePointCollectorNative;
  const int ml[] = { T::MARK_GLOBAL, T::MARK_PROCESS, T::MARK_THREAD };
  for (unsigned id : ids)
  {
    scope_entry(id); expect(on, T::SCOPE_ENTRY, id, nullptr, "scope_entry");
    scope_exit(id); expect(on, T::SCOPE_EXIT, id, nullptr, "scope_exit");
    for (int l = 0; l < 3; l++) { mark_event(id, lv[l]); expect(on, ml[l], id, nullptr, "mark_event"); }
    for (long long v : vals) { count_event(id, v); expect(on, T::COUNTER, id, &v, "count_event"); }
    { TraceRAII r(id); expect(on, T::SCOPE_ENTRY, id, nullptr, "TraceRAII"); }
    expect(on, T::SCOPE_EXIT, id, nullptr, "~TraceRAII");
  }
}
static void flags()
{
  auto c = TraceConfigurator::getInstance();
  for (int rep = 0; rep < 2; rep++)
    for (int m = 0; m < 4; m++) { c->setProcessState(m & 1); c->setThreadState(m & 2); all(m == 3); }
  c->setProcessState(true); c->setThreadState(true);
}
CASE("C11", "native: every tracepoint under every setting of the flags") { flags(); std::thread([] { flags(); }).join(); all(true); }
CASE("C11", "native: a thread started while disabled, others unaffected")
{
  auto c = TraceConfigurator::getInstance();
  all(true);
  c->setThreadState(false);
  std::thread([&] { all(true); c->setThreadState(false); all(false); }).join();
  all(false);
  c->setThreadState(true);
  all(true);
}
