// C16: recorded events to viewer events
#define VH_MAIN
#include "h.h"
#include <random>
#include <thread>
#include <atomic>
#include <memory>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <sys/stat.h>
#include <fcntl.h>
#include <nlohmann/json.hpp>
#define private public
#include "scalopus_tracing/lttng_source.h"
#undef private
using namespace scalopus;
using Names = EndpointTraceMapping::ProcessTraceMap;
struct Remote : Transport
{
  Names names;
  PendingResponse request(const std::string&, const Data&) override
  {
    std::promise<Data> p; auto f = std::make_shared<std::future<Data>>(p.get_future());
    json j = json::object(); j["mapping"] = names; p.set_value(json::to_bson(j));
    return f;
  }
  std::size_t pendingRequests() const override { return 0; }
};
struct Manager : EndpointManager
{
  TransportEndpoints all;
  TransportEndpoints endpoints() const override { return all; }
  void addEndpointFactory(const std::string&, EndpointFactory&&) override {}
};
// a trace viewer that shows what is written to a fifo stands in for babeltrace
struct Tool
{
  char dir[64]; int fd = -1;
  std::shared_ptr<Manager> manager = std::make_shared<Manager>();
  std::shared_ptr<Remote> remote = std::make_shared<Remote>();
  std::shared_ptr<LttngProvider> provider;
  std::shared_ptr<LttngSource> source;
  Tool(const Names& n = {})
  {
    strcpy(dir, "/tmp/scv_tool_XXXXXX"); CHECK(mkdtemp(dir), "mkdtemp");
    std::string d = dir;
    CHECK(mkfifo((d + "/fifo").c_str(), 0600) == 0, "mkfifo");
    { std::ofstream f(d + "/babeltrace"); f << "#!/bin/sh\nexec cat " << d << "/fifo\n"; }
    chmod((d + "/babeltrace").c_str(), 0700);
    setenv("PATH", (d + ":/usr/bin:/bin").c_str(), 1);
    fd = ::open((d + "/fifo").c_str(), O_RDWR);
    remote->names = n;
    manager->all[remote][EndpointTraceMapping::name] = EndpointTraceMapping::factory(remote);
    provider = std::make_shared<LttngProvider>("net://localhost/host/x/y", manager);
    source = std::dynamic_pointer_cast<LttngSource>(provider->makeSource());
    CHECK(source, "source");
    // a tool that is destroyed before its reader has started waits for ever; not what is looked at here
    vh::eventually([&] { return provider->tracing_tool_->parser_->isProcessing(); }, 15000);
  }
  ~Tool()
  {
    source.reset(); provider.reset(); ::close(fd);
    std::string d = dir;
    unlink((d + "/fifo").c_str()); unlink((d + "/babeltrace").c_str()); rmdir(dir);
  }
};
struct Ev { double t; std::string kind; unsigned long long pid, tid, id, value; std::string domain = "scalopus_scope_id"; bool noid = false; };
static std::string text(const Ev& e)
{
  char b[512];
  std::string d;
  if (!e.noid) d = "id = " + std::to_string(e.id);
  if (e.kind == "count_event") d += (d.empty() ? "" : ", ") + ("value = " + std::to_string(e.value));
  snprintf(b, sizeof b, "[%.9f] eagle %s:%s: { cpu_id = 2 }, { vpid = %llu, pthread_id = %llu }, { %s }", e.t, e.domain.c_str(), e.kind.c_str(), e.pid, e.tid, d.c_str());
  return b;
}
static const Names NAMES = { { 10, { { 0, "zero" }, { 1, "foo" }, { 2, "bar" }, { 3, "c/a" }, { 4, "c/b" }, { 5, "c/c" }, { 6, "d" }, { 7, "d/count" }, { 8, "c" } } }, { 20, { { 1, "other foo" }, { 3, "c/a" }, { 4, "c/z" }, { 6, "e/" } } } };
static std::vector<json> oracle(const std::vector<Ev>& in, const Names& names)
{
  struct X { json j; bool count; unsigned long long pid; std::string c, s; long long v; };
  std::vector<X> r;
  for (auto& e : in)
  {
    if (e.domain != "scalopus_scope_id") continue;
    X x{ json::object(), false, e.pid, "", "", 0 };
    double t = CTFEvent(text(e)).time();
    x.j["ts"] = t * 1e6; x.j["cat"] = "PERF"; x.j["tid"] = e.tid; x.j["pid"] = e.pid;
    unsigned id = e.noid ? 0 : (unsigned)e.id;
    char u[32]; snprintf(u, sizeof u, "Unknown 0x%x", id);
    std::string n = u;
    auto p = names.find((int)e.pid);
    if (p != names.end() && p->second.count(id)) n = p->second.at(id);
    x.j["name"] = n;
    if (e.kind == "scope_entry") x.j["ph"] = "B";
    if (e.kind == "scope_exit") x.j["ph"] = "E";
    if (e.kind == "mark_event_global") { x.j["ph"] = "i"; x.j["s"] = "g"; }
    if (e.kind == "mark_event_process") { x.j["ph"] = "i"; x.j["s"] = "p"; }
    if (e.kind == "mark_event_thread") { x.j["ph"] = "i"; x.j["s"] = "t"; }
    if (e.kind == "count_event")
    {
      x.j["ph"] = "C"; x.count = true;
      auto i = n.find('/');
      x.c = n.substr(0, i); x.s = i == std::string::npos ? "count" : n.substr(i + 1); x.v = (long long)e.value;
      x.j["name"] = x.c;
    }
    r.push_back(x);
  }
  std::vector<X> s;
  for (auto& x : r) { size_t i = s.size(); while (i > 0 && s[i - 1].j["ts"].get<double>() > x.j["ts"].get<double>()) i--; s.insert(s.begin() + i, x); }
  std::vector<json> out;
  for (size_t i = 0; i < s.size(); i++)
  {
    json j = s[i].j;
    if (s[i].count)
    {
      json a = json::object();
      auto same = [&](size_t k) { return s[k].count && s[k].pid == s[i].pid && s[k].c == s[i].c; };
      for (size_t k = s.size(); k-- > i + 1;) if (same(k)) a[s[k].s] = s[k].v;       // first later one
      for (size_t k = 0; k <= i; k++) if (same(k)) a[s[k].s] = s[k].v;               // most recent one
      j["args"] = a;
    }
    out.push_back(j);
  }
  return out;
}
static void compare(const std::vector<json>& got, const std::vector<json>& want, const char* what)
{
  CHECK(got.size() == want.size(), "%s: %zu entries, expected %zu", what, got.size(), want.size());
  for (size_t i = 0; i < got.size(); i++)
    for (auto it = want[i].begin(); it != want[i].end(); ++it)
      CHECK(got[i].contains(it.key()) && got[i][it.key()] == it.value(), "%s: entry %zu of %zu is %s, expected %s", what, i, got.size(), got[i].dump().c_str(), want[i].dump().c_str());
  for (size_t i = 0; i < got.size(); i++) for (auto k : { "s", "args" }) CHECK(got[i].contains(k) == want[i].contains(k), "%s: entry %zu is %s, expected %s", what, i, got[i].dump().c_str(), want[i].dump().c_str());
}
static void convert(Tool& t, const std::vector<Ev>& in, const char* what)
{
  t.source->startInterval();
  for (auto& e : in) t.source->events_.push_back(CTFEvent(text(e)));
  std::vector<json> got;
  try { got = t.source->finishInterval(); }
  catch (const std::exception& x) { vh::fail(std::string(what) + ": finishInterval throws " + x.what()); }
  compare(got, oracle(in, NAMES), what);
}
static const char* KINDS[] = { "scope_entry", "scope_exit", "mark_event_global", "mark_event_process", "mark_event_thread", "count_event" };
CASE("C16", "events of every kind become entries")
{
  Tool t(NAMES);
  convert(t, {}, "no events");
  for (auto k : KINDS) for (unsigned long long id : { 0ull, 1ull, 3ull, 6ull, 99ull, 0xffffffffull, 0x100000001ull }) for (unsigned long long pid : { 10ull, 20ull, 30ull })
    convert(t, { { 12.5, k, pid, 139688084124608ull, id, 5 } }, k);
  convert(t, { { 1, "scope_entry", 10, 1, 1, 0, "scalopus_scope_id", true }, { 2, "scope_exit", 10, 1, 1, 0, "scalopus_scope_id", true } }, "events without an id");
  convert(t, { { 1, "scope_entry", 10, 1, 1, 0, "other" }, { 2, "scope_exit", 10, 1, 1, 0, "lttng_ust" }, { 3, "scope_entry", 10, 1, 1, 0, "scalopus" }, { 3, "count_event", 10, 1, 3, 3, "xscalopus_scope_id" } }, "other domains only");
  convert(t, { { 1, "scope_entry", 10, 1, 1, 0 }, { 1.5, "scope_entry", 10, 1, 1, 0, "other" }, { 2, "scope_exit", 10, 1, 1, 0 } }, "other domains in between");
}
CASE("C16", "entries are in order of time, equal times in recording order")
{
  Tool t(NAMES);
  convert(t, { { 3, "scope_exit", 10, 1, 1, 0 }, { 1, "scope_entry", 10, 1, 1, 0 }, { 2, "scope_entry", 20, 2, 1, 0 } }, "three out of order");
  std::vector<Ev> same;
  for (int i = 0; i < 60; i++) same.push_back({ 7.25, KINDS[i % 6], 10u + 10 * (i % 2), (unsigned long long)i, (unsigned)i % 9, (unsigned)i });
  convert(t, same, "sixty at the same time");
  for (int i = 0; i < 60; i++) same[i].t = 100 - i / 7;
  convert(t, same, "sixty in reverse");
  for (int i = 0; i < 60; i++) same[i].t = 1544361620.7 + 1e-6 * ((i * 37) % 11);
  convert(t, same, "microseconds");
  for (int i = 0; i < 60; i++) same[i].t = 1 + 1e-9 * ((i * 37) % 11);
  convert(t, same, "nanoseconds");
}
CASE("C16", "counter entries hold all series of their counter")
{
  Tool t(NAMES);
  const char* C = "count_event";
  convert(t, { { 1, C, 10, 1, 3, 1 }, { 2, C, 10, 1, 3, 2 }, { 3, C, 10, 1, 4, 7 }, { 4, C, 10, 1, 3, 3 }, { 5, C, 10, 1, 5, 9 }, { 6, C, 10, 1, 4, 8 } }, "three series");
  convert(t, { { 1, C, 10, 1, 3, 1 }, { 2, C, 20, 1, 3, 2 }, { 3, C, 20, 1, 4, 7 }, { 4, C, 10, 1, 4, 3 }, { 5, C, 20, 1, 3, 9 } }, "counters of two processes with the same name");
  convert(t, { { 5, C, 10, 1, 3, 1 }, { 2, C, 10, 1, 3, 2 }, { 3, C, 10, 1, 4, 7 }, { 1, C, 10, 1, 4, 8 } }, "recorded out of order");
  convert(t, { { 1, C, 10, 1, 6, 1 }, { 2, C, 10, 1, 7, 2 }, { 3, C, 10, 1, 8, 7 }, { 4, C, 20, 1, 6, 8 }, { 5, C, 30, 1, 6, 8 } }, "names without a series");
  convert(t, { { 1, C, 10, 1, 3, 18446744073709551615ull }, { 2, C, 10, 1, 4, 9223372036854775808ull }, { 3, C, 10, 1, 3, 9223372036854775807ull } }, "extreme values");
  convert(t, { { 1, C, 10, 1, 3, 1 }, { 1, C, 10, 2, 3, 2 }, { 1, C, 10, 3, 4, 3 }, { 1, C, 10, 3, 3, 4 } }, "at the same time");
  convert(t, { { 1, C, 10, 1, 3, 1 } }, "first interval");
  convert(t, { { 1, C, 10, 1, 4, 1 } }, "an interval knows nothing of the one before");
}
CASE("C16", "random recordings")
{
  Tool t(NAMES);
  std::mt19937 r(vh::seed());
  int rounds = vh::thorough() ? 3000 : 250;
  for (int i = 0; i < rounds; i++)
  {
    std::vector<Ev> in;
    int n = r() % (i % 10 ? 12 : 200);
    for (int k = 0; k < n; k++) in.push_back({ (double)(r() % 40) / 8, KINDS[r() % 2 ? 5 : r() % 6], 10u * (1 + r() % 3), r() % 4, r() % 10, r() % 50, r() % 9 ? "scalopus_scope_id" : "other" });
    convert(t, in, "random");
  }
}
CASE("C16", "what the tool shows during an interval is recorded, and nothing else")
{
  Tool t(NAMES);
  std::atomic<int> seen{ 0 };
  vh::eventually([&] { return t.provider->tracing_tool_->parser_->isProcessing(); });
  auto cb = t.provider->tracing_tool_->addCallback([&](const CTFEvent&) { seen++; });
  // one line at a time: the reader waits for more text while a line already read from the pipe is in its buffer
  auto show = [&](const std::vector<Ev>& in) {
    for (auto& e : in)
    {
      int want = seen + 1;
      std::string s = text(e) + "\n";
      CHECK(write(t.fd, s.data(), s.size()) == (ssize_t)s.size(), "write");
      CHECK(vh::eventually([&] { return seen == want; }), "a line is not seen");
    }
    vh::ms(20);
  };
  std::vector<Ev> a, b;
  for (int i = 0; i < 40; i++) { a.push_back({ 10.0 + i % 7, KINDS[i % 6], 10, 1, (unsigned)i % 9, (unsigned)i }); b.push_back({ 20.0 + i % 5, KINDS[i % 6], 20, 2, (unsigned)i % 9, (unsigned)i }); }
  for (int round = 0; round < 3; round++)
  {
    show(b);
    t.source->startInterval();
    show(a);
    t.source->stopInterval();
    show(b);
    compare(t.source->finishInterval(), oracle(a, NAMES), "one interval");
    t.source->startInterval();
    show(b);
    t.source->startInterval();
    show({ a[0] });
    auto again = std::dynamic_pointer_cast<LttngSource>(t.provider->makeSource());
    again->startInterval();
    show({ a[1] });
    compare(t.source->finishInterval(), oracle({ a[0], a[1] }, NAMES), "a restarted interval");
    show({ a[2] });
    compare(again->finishInterval(), oracle({ a[1], a[2] }, NAMES), "a second source");
  }
  cb->disable();
}
CASE("C16", "an event that cannot be converted does not take the recording with it")
{
  Tool t(NAMES);
  std::vector<Ev> good = { { 1, "scope_entry", 10, 1, 1, 0 }, { 2, "count_event", 10, 1, 3, 4 }, { 3, "scope_exit", 10, 1, 1, 0 } };
  const char* bad[] = { "[1.5] eagle scalopus_scope_id:new_kind: { cpu_id = 2 }, { vpid = 10, pthread_id = 1 }, { id = 1 }",
                        "[1.5] eagle scalopus_scope_id:scope_entry: { cpu_id = 2 }, { pthread_id = 1 }, { id = 1 }",
                        "[1.5] eagle scalopus_scope_id:scope_entry: { cpu_id = 2 }, { vpid = 10 }, { id = 1 }",
                        "[1.5] eagle scalopus_scope_id:count_event: { cpu_id = 2 }, { vpid = 10, pthread_id = 1 }, { id = 3 }" };
  for (size_t at = 0; at <= good.size(); at++) for (auto b : bad)
  {
    t.source->startInterval();
    for (size_t i = 0; i <= good.size(); i++) { if (i == at) t.source->events_.push_back(CTFEvent(b)); if (i < good.size()) t.source->events_.push_back(CTFEvent(text(good[i]))); }
    std::vector<json> got;
    try { got = t.source->finishInterval(); }
    catch (const std::exception& x) { vh::fail(std::string("with ") + b + ": finishInterval throws " + x.what()); }
    compare(got, oracle(good, NAMES), b);
  }
}
