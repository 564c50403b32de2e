// C17: endpoint manager
#define VH_MAIN
#include "h.h"
#include <thread>
#include <mutex>
#include <set>
#include <future>
#include <scalopus_general/endpoint_manager_poll.h>
#include <scalopus_general/endpoint_introspect.h>
#include <nlohmann/json.hpp>
using namespace scalopus;
enum Mode { GOOD, REFUSES, NOT_CONNECTED, DIES_ASKED, SILENT, GARBAGE, NO_LIST, MODES };
struct Dest : Destination
{
  size_t h;
  Dest(size_t h_) : h(h_) {}
  operator std::string() const override { return "d" + std::to_string(h); }
  size_t hash_code() const override { return h; }
};
struct Proc { Mode mode{ GOOD }; std::vector<std::string> offers; };
struct Tr : Transport
{
  size_t h; bool alive{ true }; Proc* p; int asked{ 0 };
  std::vector<std::shared_ptr<std::promise<Data>>> keep;
  Tr(size_t h_, Proc* p_) : h(h_), p(p_) {}
  bool isConnected() const override { return alive; }
  size_t pendingRequests() const override { return 0; }
  std::shared_ptr<std::future<Data>> request(const std::string& n, const Data&) override
  {
    asked++;
    CHECK(n == "introspect", "request to %s", n.c_str());
    auto pr = std::make_shared<std::promise<Data>>();
    auto f = std::make_shared<std::future<Data>>(pr->get_future());
    if (p->mode == DIES_ASKED) { alive = false; return f; }      // broken promise
    if (p->mode == SILENT) { keep.push_back(pr); return f; }
    if (p->mode == GARBAGE) { pr->set_value({ 1, 2, 3 }); return f; }
    nlohmann::json j = nlohmann::json::object();
    if (p->mode != NO_LIST) j["endpoints"] = p->offers; else j["other"] = 3;
    pr->set_value(nlohmann::json::to_bson(j));
    return f;
  }
};
struct Fac : TransportFactory
{
  std::map<size_t, Proc> procs; std::vector<size_t> shown; std::vector<std::weak_ptr<Tr>> made; std::map<size_t, int> attempts; std::vector<size_t> order;
  std::vector<Destination::Ptr> discover() override { std::vector<Destination::Ptr> r; for (auto h : shown) r.push_back(std::make_shared<Dest>(h)); return r; }
  Transport::Ptr serve() override { return nullptr; }
  Transport::Ptr connect(const Destination::Ptr& d) override
  {
    auto x = std::dynamic_pointer_cast<Dest>(d);
    CHECK(x != nullptr, "destination");
    attempts[x->h]++;
    order.push_back(x->h);
    Proc& p = procs[x->h];
    if (p.mode == REFUSES) return nullptr;
    auto t = std::make_shared<Tr>(x->h, &p);
    if (p.mode == NOT_CONNECTED) t->alive = false;
    made.push_back(t);
    return t;
  }
};
struct Ep : Endpoint
{
  std::string n; Transport* t;
  Ep(std::string n_, const Transport::Ptr& t_) : n(n_), t(t_.get()) {}
  std::string getName() const override { return n; }
};
static const char* names[] = { "alpha", "beta", "gamma", "delta", "none" };
struct World
{
  std::shared_ptr<Fac> f{ std::make_shared<Fac>() };
  EndpointManagerPoll m{ f };
  std::map<size_t, Transport*> have; std::map<Transport*, std::map<std::string, Endpoint*>> eps;
  std::set<std::string> locals{ "introspect" };
  void local(const std::string& n, bool null = false)
  {
    std::string name = n;
    m.addEndpointFactory(n, [name, null](const Transport::Ptr& t) -> Endpoint::Ptr { if (null) return nullptr; return std::make_shared<Ep>(name, t); });
    if (!null) locals.insert(n); else locals.erase(n);
  }
  static Tr* tr(const Transport::Ptr& t) { return static_cast<Tr*>(t.get()); }
  void pass()
  {
    f->attempts.clear();
    std::map<size_t, Transport*> want;
    auto before = m.endpoints();
    for (auto& x : have) if (static_cast<Tr*>(x.second)->alive) want.insert(x);
    auto old = want;
    auto oldeps = eps;
    size_t made = f->made.size();
    m.manage();
    auto now = m.endpoints();
    std::set<size_t> seen;
    for (auto h : f->shown) seen.insert(h);
    for (auto h : seen)
    {
      int a = f->attempts[h];
      if (old.count(h)) CHECK(a == 0, "second connection to destination %zu", h);
      else CHECK(a >= 1, "destination %zu is not connected to", h);
    }
    for (auto& a : f->attempts) CHECK(!a.second || seen.count(a.first), "connected to %zu which was not discovered", a.first);
    std::map<size_t, int> n;
    for (auto& x : now)
    {
      Tr* t = tr(x.first);
      CHECK(++n[t->h] == 1, "two transports for destination %zu", t->h);
      if (old.count(t->h))
      {
        CHECK(old[t->h] == t, "the transport of destination %zu was replaced", t->h);
        CHECK(x.second.size() == oldeps[t].size(), "endpoints of %zu changed", t->h);
        for (auto& y : x.second) CHECK(oldeps[t][y.first] == y.second.get(), "endpoints of %zu changed", t->h);
        continue;
      }
      CHECK(seen.count(t->h), "transport for an unknown destination");
      std::set<std::string> exp;
      if (t->p->mode == GOOD) for (auto& o : t->p->offers) if (locals.count(o)) exp.insert(o);
      CHECK(x.second.size() == exp.size(), "%zu endpoints instead of %zu at %zu (mode %d)", x.second.size(), exp.size(), t->h, t->p->mode);
      for (auto& y : x.second)
      {
        CHECK(exp.count(y.first), "endpoint %s", y.first.c_str());
        CHECK(y.second != nullptr && y.second->getName() == y.first, "endpoint %s under the name of another", y.first.c_str());
        CHECK(x.first->getEndpoint(y.first) == y.second, "endpoint %s is not registered with its transport", y.first.c_str());
        if (y.first != "introspect") CHECK(static_cast<Ep*>(y.second.get())->t == t, "endpoint made on another transport");
      }
    }
    for (auto& x : old) CHECK(n.count(x.first), "the transport of destination %zu was dropped", x.first);
    for (auto h : seen)
    {
      Mode md = f->procs[h].mode;
      if (md == GOOD) CHECK(n.count(h), "no transport to destination %zu (mode %d)", h, md);
      if (!old.count(h) && (md == REFUSES || md == NOT_CONNECTED)) CHECK(!n.count(h), "transport to a destination that refused");
    }
    have.clear(); eps.clear();
    for (auto& x : now) { have[tr(x.first)->h] = x.first.get(); for (auto& y : x.second) eps[x.first.get()][y.first] = y.second.get(); }
    now.clear(); before.clear();
    for (size_t i = 0; i < f->made.size(); i++) if (auto t = f->made[i].lock()) CHECK(have.count(t->h) && have[t->h] == t.get(), "a dropped transport to %zu stays alive", t->h);
    (void)made;
  }
};

static void run(unsigned long seed, int rounds, bool silent)
{
  vh::Rng r(seed);
  World w;
  for (int i = 0; i < 4; i++) if (r.below(4)) w.local(names[i]);
  if (r.below(3) == 0) w.local("gamma", true);
  for (int i = 0; i < rounds; i++)
  {
    for (size_t h = 0; h < 6; h++)
    {
      size_t id = h * 7919 + (h == 3 ? 0xffffffff00000000ull : 0);
      if (!w.have.count(id) && r.below(2))
      {
        Proc& p = w.f->procs[id];
        p.mode = r.below(3) ? GOOD : (Mode)r.below(MODES);
        if (p.mode == SILENT && !silent) p.mode = REFUSES;
        p.offers.clear();
        std::vector<std::string> all(names, names + 5);
        all.push_back("introspect");
        for (auto& n : all) if (r.below(3)) p.offers.push_back(n);
        if (r.below(2)) std::reverse(p.offers.begin(), p.offers.end());
      }
      if (w.have.count(id) && r.below(4) == 0) static_cast<Tr*>(w.have[id])->alive = false;
      bool shown = false;
      for (auto x : w.f->shown) shown |= x == id;
      if (!shown && r.below(2)) w.f->shown.insert(w.f->shown.begin() + r.below(w.f->shown.size() + 1), id);
      if (shown && r.below(4) == 0) w.f->shown.erase(std::find(w.f->shown.begin(), w.f->shown.end(), id));
    }
    w.pass();
    if (r.below(5) == 0) w.local(names[r.below(4)]);
  }
}
CASE("C17", "histories of processes")
{
  for (int i = 0; i < (vh::thorough() ? 400 : 60); i++) run(vh::seed() * 1000 + i, 12, false);
}
CASE("C17", "remotes that do not answer")
{
  run(vh::seed() + 5, 8, true);
}
CASE("C17", "same destination twice")
{
  World w; w.local("alpha");
  w.f->procs[4].offers = { "alpha", "beta" };
  w.f->shown = { 4, 4 };
  w.pass();
  CHECK(w.f->attempts[4] == 1, "connected twice");
  CHECK(w.have.size() == 1, "transports");
}
CASE("C17", "one mode after another")
{
  for (int m = 0; m < MODES; m++)
  {
    World w; w.local("alpha"); w.local("beta");
    for (size_t h = 1; h < 4; h++) { w.f->procs[h].offers = { "beta", "none", "alpha" }; w.f->shown.push_back(h); }
    w.f->procs[2].mode = (Mode)m;
    w.pass();
    for (auto& x : w.have) if (x.first == 2) static_cast<Tr*>(x.second)->alive = false;
    w.f->procs[2].mode = GOOD;
    w.pass();
    CHECK(w.have.size() == 3, "transports");
    for (auto& x : w.have) static_cast<Tr*>(x.second)->alive = x.first == 2;
    w.f->shown = { 2 };
    w.pass();
    CHECK(w.have.size() == 1 && w.have.count(2), "transports");
  }
}
CASE("C17", "introspection")
{
  for (size_t n : { (size_t)0, (size_t)1, (size_t)2, (size_t)7, (size_t)300 })
  {
    Proc p; auto t = std::make_shared<Tr>(0, &p);
    std::set<std::string> all;
    for (size_t i = 0; i < n; i++) { std::string s = "ep" + std::to_string(i * 37 % 1000); all.insert(s); t->addEndpoint(std::make_shared<Ep>(s, t)); }
    EndpointIntrospect s; Data q, a;
    CHECK(s.handle(*t, q, a), "no answer");
    auto j = nlohmann::json::from_bson(a);
    auto v = j.at("endpoints").get<std::vector<std::string>>();
    CHECK(v.size() == all.size() && std::set<std::string>(v.begin(), v.end()) == all, "%zu names for %zu endpoints", v.size(), all.size());
    p.offers = v;
    s.setTransport(t);
    CHECK(s.supported() == v, "names returned");
  }
  EndpointIntrospect s; bool threw = false;
  try { s.supported(); } catch (const communication_error&) { threw = true; }
  CHECK(threw, "no transport");
}
CASE("C17", "polling")
{
  World w; w.local("alpha");
  w.f->procs[1].offers = { "alpha" };
  w.f->shown = { 1 };
  w.m.startPolling(0.001);
  CHECK(vh::eventually([&] { auto e = w.m.endpoints(); return e.size() == 1 && e.begin()->second.size() == 1; }), "not connected");
  w.m.stopPolling();
}
