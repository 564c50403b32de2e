// C12: remote trace configuration
#define VH_MAIN
#include "h.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <pthread.h>
#include <nlohmann/json.hpp>
#include <scalopus_tracing/trace_configurator.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
using namespace scalopus;
using json = nlohmann::json;
using Cfg = EndpointTraceConfigurator::TraceConfiguration;
static TraceConfigurator::Ptr tc() { return TraceConfigurator::getInstance(); }
// a transport to the endpoint in this process; keeps the bytes that travelled
struct Direct : Transport
{
  EndpointTraceConfigurator server; Data last_request, last_response; bool mute = false, lost = false; int requests = 0; std::string name; std::function<void()> before;
  std::vector<std::promise<Data>> keep;
  PendingResponse request(const std::string& n, const Data& out) override
  {
    requests++; name = n; last_request = out;
    std::promise<Data> p; auto f = std::make_shared<std::future<Data>>(p.get_future());
    if (lost) { p.set_exception(std::make_exception_ptr(communication_error("lost"))); return f; }
    if (mute) { keep.push_back(std::move(p)); return f; }
    Data in = out; last_response.clear();
    bool r = server.handle(*this, in, last_response);
    CHECK(r, "no reply"); CHECK(in == out, "request changed");
    p.set_value(last_response);
    return f;
  }
  std::size_t pendingRequests() const override { return 0; }
};
struct Worker
{
  std::mutex m; std::condition_variable c; std::function<void()> job; bool stop = false; std::thread t; unsigned long id = 0;
  Worker() { t = std::thread([this] { id = (unsigned long)pthread_self(); std::unique_lock<std::mutex> l(m); c.notify_all(); for (;;) { c.wait(l, [&] { return job || stop; }); if (!job) return; job(); job = nullptr; c.notify_all(); } }); run([] {}); }
  void run(std::function<void()> f) { std::unique_lock<std::mutex> l(m); job = f; c.notify_all(); c.wait(l, [&] { return !job; }); }
  void use() { run([] { tc()->getThreadState(); }); }
  void end() { { std::lock_guard<std::mutex> l(m); stop = true; c.notify_all(); } t.join(); }
};
struct State { bool p; std::map<unsigned long, bool> t; bool operator==(const State& o) const { return p == o.p && t == o.t; } };
static State now() { State s; s.p = tc()->getProcessState(); for (auto& x : tc()->getThreadMap()) s.t[x.first] = x.second->load(); return s; }
static void reply(const Cfg& c, const State& s) { CHECK(bool(c), "no success"); CHECK(c.process_state == s.p, "process state in the reply"); CHECK(c.thread_state == s.t, "threads in the reply: %zu instead of %zu", c.thread_state.size(), s.t.size()); }

CASE("C12", "sets and gets against a model")
{
  auto d = std::make_shared<Direct>(); auto c = EndpointTraceConfigurator::factory(d);
  vh::Rng r(vh::seed());
  std::vector<Worker*> w(5, nullptr); std::vector<unsigned long> gone{ 0, 1, 12345, 0x7fffffffffffffffUL };
  State s = now();
  for (int i = 0; i < (vh::thorough() ? 4000 : 800); i++)
  {
    int k = (int)r.below(5);
    switch (r.below(6))
    {
      case 0: if (!w[k]) { w[k] = new Worker(); w[k]->use(); s.t[w[k]->id] = true; } break;
      case 1: if (w[k] && r.below(3) == 0) { unsigned long id = w[k]->id; w[k]->end(); delete w[k]; w[k] = nullptr; s.t.erase(id); } break;
      case 2: if (w[k]) { bool v = r.below(2); w[k]->run([&] { tc()->setThreadState(v); }); s.t[w[k]->id] = v; } break;
      case 3: { auto x = c->getTraceState(); reply(x, s); break; }
      default:
      {
        Cfg n; n.process_state = r.below(2); n.set_process_state = r.below(2);
        for (auto x : w) if (x && r.below(2)) n.thread_state[x->id] = r.below(2);
        for (auto x : gone) if (r.below(3) == 0 && !s.t.count(x)) n.thread_state[x] = r.below(2);
        if (n.set_process_state) s.p = n.process_state;
        for (auto& x : n.thread_state) if (s.t.count(x.first)) s.t[x.first] = x.second;
        auto x = c->setTraceState(n); reply(x, s);
      }
    }
    State q = now();
    CHECK(q.p == s.p, "step %d: process flag %d instead of %d", i, q.p, s.p);
    CHECK(q.t == s.t, "step %d: thread flags", i);
    CHECK(d->name == "trace_configurator" || d->requests == 0, "endpoint %s", d->name.c_str());
  }
}
CASE("C12", "wire format")
{
  Direct d; Worker a, b; a.use(); b.use();
  auto send = [&](json j) { Data r; auto q = json::to_bson(j); CHECK(d.server.handle(d, q, r), "reply"); return json::from_bson(r); };
  auto check = [&](json r) { State s = now(); json st = r.at("state"); CHECK(st.at("p").get<bool>() == s.p, "p"); CHECK((st.at("t").get<std::map<unsigned long, bool>>() == s.t), "t"); };
  auto st = [&](bool p, bool sp, std::map<unsigned long, bool> t) { json j; j["p"] = p; j["sp"] = sp; j["t"] = t; return j; };
  for (auto cmd : { "get", "", "SET", "sets", "unset", "other" })
  {
    json j; j["cmd"] = cmd; j["state"] = st(false, true, { { a.id, false }, { b.id, false } });
    State s = now(); check(send(j)); CHECK(now() == s, "command '%s' changes flags", cmd);
  }
  json j; j["cmd"] = "set";
  j["state"] = st(false, false, {}); State s = now(); check(send(j)); CHECK(now() == s, "empty set changes flags");
  j["state"] = st(false, true, {}); check(send(j)); CHECK(!now().p && now().t == s.t, "set of the process");
  j["state"] = st(true, false, { { a.id, false } }); check(send(j)); CHECK(!now().p && !now().t.at(a.id) && now().t.at(b.id), "set of one thread");
  j["state"] = st(true, true, { { b.id, false }, { a.id, true }, { 77, true } }); check(send(j)); CHECK(now().p && now().t.at(a.id) && !now().t.at(b.id) && !now().t.count(77), "set of all");
  // refused requests change nothing
  State q = now();
  for (json bad : { json::object({ { "cmd", "set" } }), json::object({ { "cmd", 1 } }), json::object(), json::object({ { "cmd", "set" }, { "state", { { "p", false }, { "sp", true } } } }) })
  { Data r; auto x = json::to_bson(bad); try { d.server.handle(d, x, r); } catch (const std::exception&) {} CHECK(now() == q, "a malformed request changes flags"); }
  { Data r; try { d.server.handle(d, Data{ 1, 2, 3 }, r); } catch (const std::exception&) {} CHECK(now() == q, "garbage changes flags"); }
  a.end(); b.end();
}
CASE("C12", "no answer")
{
  auto d = std::make_shared<Direct>(); auto c = EndpointTraceConfigurator::factory(d);
  d->mute = true;
  CHECK(!bool(c->getTraceState()), "success without an answer"); CHECK(!bool(c->setTraceState({})), "success without an answer");
  d->lost = true;
  bool threw = false; try { c->getTraceState(); } catch (const std::exception&) { threw = true; } CHECK(threw, "lost request");
  EndpointTraceConfigurator alone; threw = false; try { alone.getTraceState(); } catch (const std::exception&) { threw = true; } CHECK(threw, "no transport");
  threw = false; try { alone.setTraceState({}); } catch (const std::exception&) { threw = true; } CHECK(threw, "no transport");
}
