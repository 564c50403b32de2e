// C20: loopback transport
#define VH_MAIN
#include "h.h"
#include <thread>
#include <mutex>
#include <atomic>
#include <future>
#include <scalopus_transport/transport_loopback.h>
using namespace scalopus;
// the worker's stop flag is a plain bool
extern "C" const char* __tsan_default_suppressions() { return "race:~TransportLoopback\n"; }
using Resp = Transport::PendingResponse;
static Data d(const std::string& s) { return Data(s.begin(), s.end()); }
static std::string str(const Data& x) { return std::string(x.begin(), x.end()); }
struct Ep : Endpoint
{
  std::string n; std::mutex m; std::vector<std::string> handled, told; std::vector<Transport*> by; std::function<bool(const Data&, Data&)> f; std::function<void()> g; bool reply = false; bool dirty = false;
  Ep(std::string n_) : n(n_) { f = [](const Data& q, Data& r) { r = d("<" + str(q) + ">"); return true; }; }
  std::string getName() const override { return n; }
  bool handle(Transport& t, const Data& q, Data& r) override { std::lock_guard<std::mutex> l(m); handled.push_back(str(q)); by.push_back(&t); if (!r.empty()) dirty = true; return f(q, r); }
  bool unsolicited(Transport& t, const Data& q, Data& r) override { std::lock_guard<std::mutex> l(m); told.push_back(str(q)); by.push_back(&t); if (!r.empty()) dirty = true; if (g) g(); if (reply) r = d("re:" + str(q)); return reply; }
  std::vector<std::string> H() { std::lock_guard<std::mutex> l(m); return handled; }
  std::vector<std::string> T() { std::lock_guard<std::mutex> l(m); return told; }
};
using EpP = std::shared_ptr<Ep>;
static EpP add(const Transport::Ptr& t, const std::string& n) { auto e = std::make_shared<Ep>(n); t->addEndpoint(e); return e; }
static Data get(const Resp& r) { CHECK(r != nullptr, "no future"); CHECK(r->wait_for(std::chrono::seconds(8)) == std::future_status::ready, "request is not resolved"); return r->get(); }
static void fails(const Resp& r) { CHECK(r != nullptr, "no future"); CHECK(r->wait_for(std::chrono::seconds(8)) == std::future_status::ready, "request is not resolved"); bool t = false; try { r->get(); } catch (const std::exception&) { t = true; } CHECK(t, "no error reported"); }
struct Net
{
  TransportLoopbackFactory f; Transport::Ptr server;
  Net() { server = f.serve(); CHECK(server != nullptr, "serve"); }
  Transport::Ptr client() { auto v = f.discover(); CHECK(v.size() == 1, "%zu servers discovered", v.size()); auto c = f.connect(v[0]); CHECK(c != nullptr, "connect"); CHECK(c->isConnected(), "not connected"); return c; }
};

CASE("C20", "requests and answers")
{
  Net n; auto a = add(n.server, "a"), b = add(n.server, "b"); auto c = n.client();
  vh::Rng r(vh::seed());
  for (int round = 0; round < (vh::thorough() ? 60 : 12); round++)
  {
    std::vector<std::pair<Resp, std::string>> q; std::vector<std::string> wa, wb;
    size_t ha = a->H().size(), hb = b->H().size();
    int k = 1 + (int)r.below(12);
    for (int i = 0; i < k; i++)
    {
      std::string s = r.below(5) == 0 ? "" : r.below(4) == 0 ? "same" : "x" + std::to_string(r.next());
      if (r.below(6) == 0) s += std::string("\0z", 2);
      int w = (int)r.below(4);
      auto f = c->request(w == 0 ? "b" : w == 3 ? "nobody" : "a", d(s));
      CHECK(f != nullptr, "no future");
      if (w == 3) q.push_back({ f, "!" }); else { q.push_back({ f, "<" + s + ">" }); (w == 0 ? wb : wa).push_back(s); }
    }
    for (auto& x : q) { if (x.second == "!") fails(x.first); else CHECK(str(get(x.first)) == x.second, "wrong response"); }
    auto A = a->H(), B = b->H();
    CHECK(A.size() == ha + wa.size() && B.size() == hb + wb.size(), "handled %zu and %zu instead of %zu and %zu", A.size() - ha, B.size() - hb, wa.size(), wb.size());
    CHECK(std::equal(wa.begin(), wa.end(), A.begin() + ha) && std::equal(wb.begin(), wb.end(), B.begin() + hb), "payloads");
    CHECK(vh::eventually([&] { return c->pendingRequests() == 0; }), "requests stay pending");
  }
  for (auto t : a->by) CHECK(t == n.server.get(), "transport given to the handler");
  CHECK(!a->dirty && !b->dirty, "handler starts with a used response");
}
CASE("C20", "requests collected while a handler runs")
{
  Net n; auto a = add(n.server, "a"); auto c = n.client(), c2 = n.client();
  std::promise<void> go; auto fut = go.get_future().share(); std::atomic<int> in{ 0 };
  a->f = [&](const Data& q, Data& r) { if (q == d("wait")) { in++; fut.wait(); } r = d("<" + str(q) + ">"); return q != d("refuse"); };
  auto w = c2->request("a", d("wait"));
  CHECK(vh::eventually([&] { return in == 1; }), "not handled");
  // the second client's worker is blocked inside the server's endpoint; the endpoint's own lock makes the first one wait too
  auto f0 = c->request("a", d("0")); vh::ms(40);
  go.set_value();
  CHECK(str(get(w)) == "<wait>" && str(get(f0)) == "<0>", "answers");
  std::vector<Resp> fs;
  fs.push_back(c2->request("a", d("first")));
  for (int i = 0; i < 5; i++) fs.push_back(c->request(i == 2 ? "zzz" : "a", d(i == 3 ? "refuse" : std::to_string(i))));
  CHECK(str(get(fs[0])) == "<first>" && str(get(fs[1])) == "<0>" && str(get(fs[2])) == "<1>", "answers"); fails(fs[3]); fails(fs[4]); CHECK(str(get(fs[5])) == "<4>", "last answer");
  vh::ms(40);
  auto h = a->H(); CHECK(h.size() == 2 + 1 + 4, "%zu calls", h.size());
}
CASE("C20", "a handler that fails ends neither the process nor the service")
{
  Net n; auto a = add(n.server, "a"); auto c = n.client(), c2 = n.client(); auto ca = add(c, "a"), cb = add(c2, "a");
  auto f = [](const Data& q, Data& r) -> bool { r = d("half"); if (q.size() == 1) throw std::runtime_error("short"); if (q.empty()) throw std::out_of_range("empty"); if (q.size() == 2) throw std::bad_alloc(); r = q; return true; };
  a->f = f;
  for (int i = 0; i < 3; i++)
  {
    auto x = c->request("a", d("x")), y = c->request("a", d("fine")), z = c->request("a", {}), w = c2->request("a", d("also")), v = c->request("a", d("vv"));
    fails(x); CHECK(str(get(y)) == "fine", "answer after a failed handler"); fails(z); CHECK(str(get(w)) == "also", "other client"); fails(v);
  }
  CHECK(a->H().size() == 15, "%zu calls", a->H().size());
  std::atomic<int> k{ 0 };
  ca->g = [&]() { k++; throw std::runtime_error("no broadcasts, please"); };
  n.server->broadcast("a", d("one")); n.server->broadcast("a", d("two"));
  CHECK(vh::eventually([&] { return cb->T().size() == 2 && k == 2; }), "a client that fails keeps broadcasts from others");
}
CASE("C20", "abandoned, misdirected and server side requests")
{
  Net n; auto a = add(n.server, "a"); auto c = n.client();
  fails(c->request("nobody", d("x"))); fails(c->request("", {})); fails(n.server->request("a", d("x")));
  CHECK(str(get(c->request("a", d("still there")))) == "<still there>", "answer");
  for (int i = 0; i < 20; i++) { c->request("a", d("gone")); auto f = c->request("a", d(std::to_string(i))); CHECK(str(get(f)) == "<" + std::to_string(i) + ">", "answer"); }
  CHECK(vh::eventually([&] { return c->pendingRequests() == 0; }), "requests stay pending");
  int k = 0; for (auto& x : a->H()) if (x != "gone" && x != "still there") CHECK(x == std::to_string(k++), "order");
  CHECK(k == 20, "%d handled", k);
  // a client that goes away resolves what is left
  auto c2 = n.client(); auto f = c2->request("a", d("x")); c2.reset();
  CHECK(f->wait_for(std::chrono::seconds(8)) == std::future_status::ready, "request of a destroyed client is never resolved");
}
CASE("C20", "broadcasts")
{
  Net n; std::vector<Transport::Ptr> cs; std::vector<EpP> es; auto srv = add(n.server, "b");
  srv->f = [](const Data&, Data&) { return false; };
  for (int i = 0; i < 5; i++) { cs.push_back(n.client()); es.push_back(i == 1 ? add(cs[i], "other") : add(cs[i], "b")); if (i == 3) es[i]->reply = true; }
  auto oth = add(cs[2], "other");
  n.server->broadcast("nobody", d("x"));
  std::vector<std::string> all;
  auto sent = [&](const std::string& s) { n.server->broadcast("b", d(s)); all.push_back(s); };
  for (int i = 0; i < 4; i++) sent("m" + std::to_string(i));
  sent("");
  CHECK(vh::eventually([&] { return es[4]->T().size() == all.size(); }), "broadcasts do not arrive");
  cs[2].reset(); es[2]->told.clear();
  for (int i = 0; i < 4; i++) sent("n" + std::to_string(i));
  n.server->broadcast("other", d("o"));
  auto late = n.client(); auto le = add(late, "b");
  CHECK(vh::eventually([&] { return es[4]->T().size() == all.size() && es[1]->T().size() == 1; }), "broadcasts do not arrive after a client left");
  vh::ms(50);
  for (int i : { 0, 3, 4 }) CHECK(es[i]->T() == all, "client %d: %zu broadcasts, or wrong order", i, es[i]->T().size());
  CHECK(es[1]->T() == std::vector<std::string>{ "o" }, "other endpoint");
  CHECK(es[2]->T().empty(), "client that left");
  for (int i : { 0, 3, 4 }) for (auto t : es[i]->by) CHECK(t == cs[i].get(), "transport given to the handler");
  for (auto& e : es) CHECK(!e->dirty, "handler starts with a used response");
  CHECK(srv->H().size() == all.size(), "%zu answers reach the server", srv->H().size());
  for (size_t i = 0; i < all.size(); i++) CHECK(srv->H()[i] == "re:" + all[i], "answer to a broadcast");
  // the server has no such endpoint, a client answers
  auto x = add(cs[0], "x"), y = add(cs[4], "x"); x->reply = true;
  n.server->broadcast("x", d("1")); n.server->broadcast("x", d("2"));
  CHECK(vh::eventually([&] { return y->T().size() == 2; }), "broadcast after an answer nobody takes");
}
CASE("C20", "clients come and go during broadcasts")
{
  Net n; std::atomic<bool> stop{ false };
  std::thread t([&] { int i = 0; while (!stop) { n.server->broadcast("b", d(std::to_string(i++))); vh::ms(1); } });
  for (int k = 0; k < (vh::thorough() ? 60 : 15); k++)
  {
    std::vector<Transport::Ptr> cs; std::vector<EpP> es;
    for (int i = 0; i < 6; i++) { cs.push_back(n.client()); es.push_back(add(cs.back(), "b")); }
    CHECK(vh::eventually([&] { for (auto& e : es) if (e->T().size() < 2) return false; return true; }), "broadcasts do not reach a new client");
    for (auto& e : es) { auto v = e->T(); for (size_t i = 1; i < v.size(); i++) CHECK(atoi(v[i].c_str()) == atoi(v[i - 1].c_str()) + 1, "broadcast %s follows %s", v[i].c_str(), v[i - 1].c_str()); }
    // the worker must not be the last to hold a client's server: the server outlives them here
  }
  stop = true; t.join();
}
CASE("C20", "connecting")
{
  TransportLoopbackFactory f; CHECK(f.connect(nullptr) == nullptr, "no destination");
  struct D : Destination { operator std::string() const override { return "d"; } std::size_t hash_code() const override { return 1; } };
  CHECK(f.connect(std::make_shared<D>()) == nullptr, "other kind");
  auto s1 = f.serve(), s2 = f.serve(); auto a1 = add(s1, "a"), a2 = add(s2, "a");
  auto v = f.discover(); CHECK(v.size() == 2, "discovered %zu", v.size());
  a1->f = [](const Data&, Data& r) { r = d("1"); return true; }; a2->f = [](const Data&, Data& r) { r = d("2"); return true; };
  auto c1 = f.connect(v[0]), c2 = f.connect(v[1]);
  auto x = str(get(c1->request("a", {}))), y = str(get(c2->request("a", {})));
  CHECK(x == "1" && y == "2", "connected to %s and %s", x.c_str(), y.c_str());
  c2.reset(); s2.reset(); auto w = f.discover(); CHECK(w.size() == 1, "discovered %zu", w.size()); CHECK(f.connect(v[1]) == nullptr, "server that is gone");
}
