// C13: names of trace ids and counters
#define VH_MAIN
#include "h.h"
#include <climits>
#include <random>
#include <thread>
#include <atomic>
#include <unistd.h>
#include <nlohmann/json.hpp>
#include "scalopus_tracing/scope_tracing_provider.h"
#include "scalopus_tracing/internal/static_string_tracker.h"
using P = scalopus::ScopeTracingProvider;
using Map = P::ProcessTraceMap;
static std::string fallback(unsigned id) { char b[64]; snprintf(b, sizeof b, "Unknown 0x%x", id); return b; }
static void expect(const Map& m, int pid, unsigned id)
{
  std::string want = fallback(id);
  for (auto& p : m) if (p.first == pid) for (auto& x : p.second) if (x.first == id) want = x.second;
  std::string got = P::getScopeName(m, pid, id);
  CHECK(got == want, "process %d id %u: '%s' instead of '%s'", pid, id, got.c_str(), want.c_str());
}
CASE("C13", "registered and unregistered ids")
{
  Map m;
  m[100] = { { 0, "zero" }, { 1, "one" }, { 0xffffffffu, "max" }, { 0x80000000u, "high" }, { 7, "" }, { 16, "Unknown 0x7" } };
  m[200] = { { 1, "other one" }, { 5, "name/with/slash" }, { 17, std::string("nul\0inside", 10) } };
  m[300] = {}; m[-1] = { { 3, "negative process" } }; m[0] = { { 4, "process 0" } };
  for (int pid : { 100, 200, 300, -1, 0, 1, 400, INT_MAX, INT_MIN })
    for (unsigned id : { 0u, 1u, 2u, 3u, 4u, 5u, 7u, 10u, 15u, 16u, 17u, 255u, 256u, 0xabcdefu, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu }) expect(m, pid, id);
  expect(Map{}, 1, 1);
}
CASE("C13", "random mappings")
{
  std::mt19937 g(vh::seed());
  for (int n = 0; n < 300; n++)
  {
    Map m; int np = g() % 5;
    for (int p = 0; p < np; p++) { auto& x = m[g() % 6]; int k = g() % 40; for (int i = 0; i < k; i++) x[g() % 60] = "n" + std::to_string(g() % 1000); }
    Map keep = m;
    for (int p = 0; p < 7; p++) for (unsigned id = 0; id < 61; id++) expect(m, p, id);
    CHECK(m == keep, "the mapping is changed by looking names up");
  }
  for (int i = 0; i < 20000; i++) { unsigned id = g() >> (g() % 32); CHECK(P::getScopeName({}, 1, id) == fallback(id), "id %u", id); }
}
static void split(const std::string& s)
{
  auto r = P::splitCounterSeriesName(s);
  size_t i = s.find('/');
  std::string a = i == std::string::npos ? s : s.substr(0, i), b = i == std::string::npos ? "count" : s.substr(i + 1);
  CHECK(r.first == a && r.second == b, "'%s' is split into '%s' and '%s'", s.c_str(), r.first.c_str(), r.second.c_str());
}
CASE("C13", "counter names")
{
  for (auto s : { "", "/", "//", "a", "a/", "/a", "a/b", "a/b/c", "a//b", "abc/def", "count", "count/count", "a/b/", "/a/b", "a\\b", "long counter name without any series in it" }) split(s);
  split(std::string("a\0/b", 4)); split(std::string("a/\0b", 4)); split(std::string(1000, 'x') + "/" + std::string(1000, 'y'));
  std::mt19937 g(vh::seed());
  for (int i = 0; i < 20000; i++) { std::string s; int n = g() % 9; for (int k = 0; k < n; k++) s += "/ab\0c"[g() % 5]; split(s); }
}

struct Prov : P { using P::P; scalopus::TraceEventSource::Ptr makeSource() override { return nullptr; } };
using json = nlohmann::json;
// a remote process: answers with its own names
struct Remote : scalopus::Transport
{
  Map names; bool answers = true; bool own = false; int broken = 0;
  PendingResponse request(const std::string& name, const scalopus::Data& out) override
  {
    std::promise<scalopus::Data> p; auto f = std::make_shared<std::future<scalopus::Data>>(p.get_future());
    scalopus::Data r;
    if (own) { scalopus::EndpointTraceMapping e; if (name == e.getName() && e.handle(*this, out, r)) p.set_value(r); }
    else if (broken == 1) p.set_value({ 1, 2, 3 });
    else if (broken == 2) { json j = json::object(); j["mapping"] = "none"; p.set_value(json::to_bson(j)); }
    else if (broken == 3) { std::promise<scalopus::Data> q; std::swap(p, q); }
    else if (answers && name == "scope_tracing") { json j = json::object(); j["mapping"] = names; p.set_value(json::to_bson(j)); }
    else { keep.push_back(std::move(p)); }
    return f;
  }
  std::vector<std::promise<scalopus::Data>> keep;
  std::size_t pendingRequests() const override { return 0; }
};
struct Manager : scalopus::EndpointManager
{
  TransportEndpoints all;
  TransportEndpoints endpoints() const override { return all; }
  void addEndpointFactory(const std::string&, EndpointFactory&&) override {}
  std::shared_ptr<Remote> add(bool mapping = true)
  {
    auto t = std::make_shared<Remote>();
    auto& m = all[t];
    if (mapping) m[scalopus::EndpointTraceMapping::name] = scalopus::EndpointTraceMapping::factory(t);
    return t;
  }
};
CASE("C13", "mapping without a manager")
{
  Prov p(nullptr);
  CHECK(p.getMapping().empty(), "mapping of a fresh provider");
  p.updateMapping();
  CHECK(p.getMapping().empty(), "mapping after an update without a manager");
}
CASE("C13", "names of several processes")
{
  auto m = std::make_shared<Manager>();
  Prov p(m);
  p.updateMapping();
  CHECK(p.getMapping().empty(), "no processes");
  auto a = m->add(), b = m->add(), c = m->add(false);
  a->names[10] = { { 1, "a1" }, { 2, "a2" }, { 0xffffffffu, "a/x" } };
  b->names[20] = { { 1, "b1" }, { 0x80000000u, "" } };
  b->names[21] = {};
  p.updateMapping();
  Map want = a->names; want.insert(b->names.begin(), b->names.end());
  auto got = p.getMapping();
  for (int pid : { 10, 20, 21, 22 }) for (unsigned id : { 0u, 1u, 2u, 3u, 0x80000000u, 0xffffffffu }) {
    std::string w = fallback(id); if (want.count(pid) && want[pid].count(id)) w = want[pid][id];
    CHECK(P::getScopeName(got, pid, id) == w, "process %d id %u: '%s' instead of '%s'", pid, id, P::getScopeName(got, pid, id).c_str(), w.c_str());
  }
  CHECK(got == want, "mapping of all processes");
  // new names, a process that went away, one that does not answer
  a->names[10][3] = "a3"; a->names[10].erase(1);
  p.updateMapping(); got = p.getMapping();
  CHECK(P::getScopeName(got, 10, 3) == "a3" && P::getScopeName(got, 10, 1) == "Unknown 0x1", "names after an update");
  m->all.erase(b); p.updateMapping();
  CHECK(p.getMapping() == a->names, "mapping after a process ended");
  a->answers = false; p.updateMapping();
  CHECK(p.getMapping().empty(), "mapping of a process that does not answer");
}
CASE("C13", "a process that went away or answers nonsense")
{
  for (int broken : { 1, 2, 3 }) for (int k = 0; k < 4; k++)
  {
    auto m = std::make_shared<Manager>();
    Prov p(m);
    Map want; std::vector<std::shared_ptr<Remote>> all;
    for (int i = 0; i < 4; i++) { all.push_back(m->add()); all[i]->names[10 + i] = { { 1, "n" + std::to_string(i) } }; }
    all[k]->broken = broken;
    for (int i = 0; i < 4; i++) if (i != k) want[10 + i] = all[i]->names[10 + i];
    p.updateMapping();
    CHECK(p.getMapping() == want, "%zu processes known of the 3 that answer", p.getMapping().size());
  }
}
CASE("C13", "requests that do not ask for the names")
{
  Remote t; scalopus::EndpointTraceMapping e;
  for (auto& rq : std::vector<scalopus::Data>{ {}, { 'x' }, { 0 }, { 'M', 'm' }, { 'n', 'm' } })
  {
    scalopus::Data out;
    CHECK(!e.handle(t, rq, out), "a request of %zu bytes that does not ask for names is answered", rq.size());
  }
  scalopus::Data a, b;
  CHECK(e.handle(t, { 'm' }, a) && e.handle(t, { 'm', 'x' }, b) && a == b && !a.empty(), "a request for names is not answered");
}
CASE("C13", "names of this process")
{
  auto& t = scalopus::StaticStringTracker::getInstance();
  std::mt19937 g(vh::seed());
  Map want; auto& mine = want[getpid()];
  for (int i = 0; i < 200; i++) { unsigned id = g(); std::string n = "name " + std::to_string(i); t.insert(id, n); mine[id] = n; }
  t.insert(0, ""); mine[0] = ""; t.insert(0xffffffffu, "last/series"); mine[0xffffffffu] = "last/series";
  auto m = std::make_shared<Manager>(); auto a = m->add(); a->own = true;
  Prov p(m); p.updateMapping();
  CHECK(p.getMapping() == want, "names of this process");
}
