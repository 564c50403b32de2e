// C22: recording session of the catapult backend
#define VH_MAIN
#include "h.h"
#include <thread>
#include <mutex>
#include <atomic>
#include <nlohmann/json.hpp>
#include "trace_session.h"
using namespace scalopus;
using json = nlohmann::json;
// the stop flag is a plain bool
extern "C" const char* __tsan_default_suppressions() { return "race:~TraceSession\n"; }
struct Log
{
  std::mutex m; std::vector<std::string> v;
  void add(const std::string& s) { std::lock_guard<std::mutex> l(m); v.push_back(s); }
  std::vector<std::string> get() { std::lock_guard<std::mutex> l(m); return v; }
  size_t n() { return get().size(); }
};
struct Src : TraceEventSource
{
  Log& log; std::string n; std::vector<json> ev; bool on = false, bad = false, fails = false; std::atomic<int> w{ 0 };
  Src(Log& l, const std::string& n_) : log(l), n(n_) {}
  void startInterval() override { log.add("start " + n); on = true; }
  void stopInterval() override { log.add("stop " + n); on = false; }
  std::vector<json> finishInterval() override { log.add("finish " + n); if (on) bad = true; if (fails) throw std::runtime_error("no events"); return ev; }
  void work() override { w++; }
};
struct S
{
  Log log; std::unique_ptr<TraceSession> s; std::vector<std::shared_ptr<Src>> src; int made = 0; Log text;
  S(int k = 1)
  {
    s.reset(new TraceSession([this](std::string x) { log.add("> " + x); }));
    s->setLogger([this](const std::string& x) { text.add(x); });
    for (int i = 0; i < k; i++) { src.push_back(std::make_shared<Src>(log, std::to_string(i))); TraceEventSource::Ptr p = src.back(); s->addSource(std::move(p)); }
  }
  ~S() { s.reset(); }
  json event(int how) { int k = made++; json j{ { "seq", k }, { "ph", "X" }, { "ts", k * 0.5 } }; if (how == 1) j["name"] = "q\"uo\\te\n\t,]}"; if (how == 2) j["args"] = { { "a", { 1, 2, 3 } }, { "b", nullptr } }; if (how == 3) j = json::array({ k, "x" }); return j; }
  // messages sent from position `at` on
  std::vector<std::string> sent(size_t at = 0) { std::vector<std::string> r; auto v = log.get(); for (size_t i = at; i < v.size(); i++) if (v[i][0] == '>') r.push_back(v[i].substr(2)); return r; }
};
static json parse(const std::string& s) { json j; try { j = json::parse(s); } catch (...) { CHECK(false, "not JSON: %s", s.substr(0, 120).c_str()); } return j; }
static bool done(S& s, size_t at, int count = 1)
{
  int k = 0; for (auto& x : s.sent(at)) if (x.find("tracingComplete") != std::string::npos) k++;
  return k >= count;
}
static void reply(const json& j, const json& id) { CHECK(j.is_object() && j.count("id") && j["id"] == id, "reply with id %s instead of %s", j.is_object() && j.count("id") ? j["id"].dump().c_str() : "none", id.dump().c_str()); CHECK(j.count("result"), "no result"); }
static void end(S& s, const json& id)
{
  size_t at = s.log.n();
  std::vector<json> want; for (auto& x : s.src) if (!x->fails) want.insert(want.end(), x->ev.begin(), x->ev.end());
  s.s->incoming(json{ { "method", "Tracing.end" }, { "id", id } }.dump());
  CHECK(vh::eventually([&] { return done(s, at); }), "no completion message");
  auto log = s.log.get(); size_t stops = 0, finishes = 0; bool acked = false;
  for (size_t i = at; i < log.size(); i++)
  {
    if (log[i][0] == '>') { if (!acked) CHECK(stops == s.src.size(), "acknowledged with %zu of %zu sources stopped", stops, s.src.size()); acked = true; }
    if (log[i].substr(0, 4) == "stop") stops++;
    if (log[i].substr(0, 6) == "finish") { finishes++; }
  }
  CHECK(stops == s.src.size() && finishes == s.src.size(), "%zu stops and %zu collections for %zu sources", stops, finishes, s.src.size());
  for (auto& x : s.src) CHECK(!x->bad, "collected before it was stopped");
  auto v = s.sent(at); CHECK(v.size() >= 2, "%zu messages", v.size());
  reply(parse(v[0]), id); CHECK(!parse(v[0]).count("method"), "acknowledgement");
  json l = parse(v.back()); CHECK(l.count("method") && l["method"] == "Tracing.tracingComplete" && !l.count("id"), "completion");
  std::vector<json> got;
  for (size_t i = 1; i + 1 < v.size(); i++)
  {
    json j = parse(v[i]);
    CHECK(j.is_object() && j.count("method") && j["method"] == "Tracing.dataCollected" && j.count("params") && j["params"].count("value") && j["params"]["value"].is_array(), "chunk");
    CHECK(j["params"]["value"].size() <= 1000, "chunk of %zu", j["params"]["value"].size());
    for (auto& x : j["params"]["value"]) got.push_back(x);
  }
  CHECK(got.size() == want.size(), "%zu events instead of %zu", got.size(), want.size());
  for (size_t i = 0; i < got.size(); i++) CHECK(got[i] == want[i], "event %zu is %s instead of %s", i, got[i].dump().c_str(), want[i].dump().c_str());
}
static void count(const std::vector<int>& n)
{
  S s((int)n.size());
  for (size_t k = 0; k < n.size(); k++) for (int i = 0; i < n[k]; i++) s.src[k]->ev.push_back(s.event(i % 4));
  end(s, 7);
}
CASE("C22", "no events, one source") { count({ 0 }); }
CASE("C22", "no sources") { count({}); }
CASE("C22", "a few events") { for (int i = 1; i < 5; i++) count({ i }); }
CASE("C22", "around the size of a chunk") { for (int i : { 998, 999, 1000, 1001, 1002 }) count({ i }); }
CASE("C22", "around twice the size of a chunk") { for (int i : { 1998, 1999, 2000, 2001, 2002, 3000 }) count({ i }); }
CASE("C22", "several sources") { count({ 1, 1 }); count({ 3, 0, 2 }); count({ 0, 0 }); count({ 999, 1 }); count({ 1, 999, 1 }); count({ 600, 600, 800 }); count({ 0, 1000, 0, 1000, 1 }); }
CASE("C22", "any number of events")
{
  vh::Rng r(vh::seed());
  for (int i = 0; i < (vh::thorough() ? 60 : 8); i++) { std::vector<int> n; for (int k = (int)r.below(4); k >= 0; k--) n.push_back(r.below(3) ? (int)r.below(40) : (int)r.below(2600)); count(n); }
}
CASE("C22", "sources that fail to collect their events")
{
  for (int k = 0; k < 3; k++)
  {
    S s(3); for (auto& x : s.src) for (int i = 0; i < 3; i++) x->ev.push_back(s.event(i));
    s.src[k]->fails = true; end(s, 1);
    s.src[k]->fails = false; end(s, 2);
    for (auto& x : s.src) x->fails = true;
    end(s, 3);
  }
}
CASE("C22", "many events") { count({ vh::thorough() ? 65536 : 12000 }); count({ vh::thorough() ? 66000 : 4096, 4096 }); }
CASE("C22", "ids are those of the messages answered")
{
  S s(2); s.src[0]->ev.push_back(s.event(0));
  for (json id : { json(0), json(1), json(-5), json(1ull << 60), json("x"), json(""), json(nullptr), json(1.5), json({ 1, 2 }), json({ { "a", 1 } }), json({ "a", 1 }), json(true) })
  {
    size_t at = s.log.n();
    s.s->incoming(json{ { "method", "Tracing.getCategories" }, { "id", id } }.dump());
    CHECK(vh::eventually([&] { return s.sent(at).size() == 1; }), "no answer for the categories"); reply(parse(s.sent(at)[0]), id);
    at = s.log.n();
    s.s->incoming(json{ { "method", "Tracing.start" }, { "id", id }, { "params", { { "x", 1 } } } }.dump());
    CHECK(vh::eventually([&] { return s.sent(at).size() == 1; }), "no answer to the start"); reply(parse(s.sent(at)[0]), id);
    auto l = s.log.get(); CHECK(std::count(l.begin() + at, l.end(), "start 0") == 1 && std::count(l.begin() + at, l.end(), "start 1") == 1, "sources started");
    end(s, id);
  }
}
CASE("C22", "messages are answered in order, each once")
{
  S s(1); std::vector<int> ids;
  for (int i = 0; i < 200; i++) { ids.push_back(i); s.s->incoming(json{ { "method", i % 3 ? "Tracing.getCategories" : "Tracing.start" }, { "id", i } }.dump()); if (i % 7 == 0) vh::ms(1); }
  CHECK(vh::eventually([&] { return s.sent().size() >= ids.size(); }), "%zu answers", s.sent().size());
  vh::ms(30); auto v = s.sent(); CHECK(v.size() == ids.size(), "%zu answers", v.size());
  for (size_t i = 0; i < v.size(); i++) reply(parse(v[i]), ids[i]);
}
CASE("C22", "messages from several threads")
{
  S s(0); std::vector<std::thread> t; std::atomic<int> go{ 0 };
  for (int k = 0; k < 4; k++) t.emplace_back([&, k] { go++; while (go < 4) {} for (int i = 0; i < 150; i++) s.s->incoming(json{ { "method", "Tracing.getCategories" }, { "id", k * 1000 + i } }.dump()); });
  for (auto& x : t) x.join();
  CHECK(vh::eventually([&] { return s.sent().size() >= 600; }), "%zu answers", s.sent().size());
  auto v = s.sent(); CHECK(v.size() == 600, "%zu answers", v.size());
  int next[4] = { 0, 0, 0, 0 };
  for (auto& x : v) { int id = parse(x)["id"]; CHECK(id % 1000 == next[id / 1000]++, "order"); }
}
CASE("C22", "messages that are not understood are ignored")
{
  S s(1); s.src[0]->ev.push_back(s.event(1));
  for (const char* x : { "", "{", "nonsense", "[1,2]", "3", "\"x\"", "{}", "null", "{\"method\":3}", "{\"method\":\"Tracing.other\",\"id\":1}", "{\"id\":4}", "\xff\xfe", "{\"method\":\"Tracing.end\",\"id\":" })
  {
    size_t at = s.log.n();
    s.s->incoming(x);
    s.s->incoming("{\"method\":\"Tracing.getCategories\",\"id\":\"after\"}");
    CHECK(vh::eventually([&] { return s.sent(at).size() >= 1; }), "no answer after '%s'", x);
    CHECK(s.sent(at).size() == 1, "%zu answers", s.sent(at).size()); reply(parse(s.sent(at)[0]), "after");
  }
  end(s, 2);
}
CASE("C22", "several recordings")
{
  S s(2);
  for (int i = 0; i < 6; i++)
  {
    for (auto& x : s.src) { x->ev.clear(); for (int k = 0; k < (i * 37) % 5; k++) x->ev.push_back(s.event(k % 4)); }
    size_t at = s.log.n(); s.s->incoming(json{ { "method", "Tracing.start" }, { "id", i } }.dump());
    CHECK(vh::eventually([&] { return s.sent(at).size() == 1; }), "no answer to the start");
    end(s, i);
  }
  CHECK(vh::eventually([&] { return s.src[0]->w > 0 && s.src[1]->w > 0; }), "sources get no work");
}
CASE("C22", "ends while messages wait")
{
  for (int i = 0; i < 10; i++) { S s(1); for (int k = 0; k < 20; k++) { s.src[0]->ev.push_back(s.event(0)); s.s->incoming("{\"method\":\"Tracing.end\",\"id\":1}"); } if (i % 2) vh::ms(i); }
}
