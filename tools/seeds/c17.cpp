#define VH_MAIN
#include "h.h"
#include <thread>
#include <set>
#include <future>
#include <nlohmann/json.hpp>
#include <scalopus_general/endpoint_manager_poll.h>
using namespace scalopus;
struct D : Destination { size_t h; D(size_t x) : h(x) {} size_t hash_code() const override { return h; } operator std::string() const override { return "d"; } };
struct T : Transport
{
  bool alive{ true };
  bool isConnected() const override { return alive; }
  size_t pendingRequests() const override { return 0; }
  std::shared_ptr<std::future<Data>> request(const std::string&, const Data&) override
  {
    std::promise<Data> p; nlohmann::json j; j["endpoints"] = std::vector<std::string>{ "a", "b", "c" };
    p.set_value(nlohmann::json::to_bson(j));
    return std::make_shared<std::future<Data>>(p.get_future());
  }
};
struct F : TransportFactory
{
  std::vector<size_t> shown; std::vector<std::weak_ptr<T>> made; int asked{ 0 };
  std::vector<Destination::Ptr> discover() override { std::vector<Destination::Ptr> r; for (auto h : shown) r.push_back(std::make_shared<D>(h)); return r; }
  Transport::Ptr serve() override { return nullptr; }
  Transport::Ptr connect(const Destination::Ptr&) override { asked++; auto t = std::make_shared<T>(); made.push_back(t); return t; }
};
struct E : Endpoint { std::string n; E(std::string s) : n(s) {} std::string getName() const override { return n; } };
CASE("", "a process is replaced by another at the same address")
{
  auto f = std::make_shared<F>(); EndpointManagerPoll m(f);
  f->shown = { 1, 2 };
  m.manage();
  CHECK(m.endpoints().size() == 2, "transports");
  f->made[0].lock()->alive = false;
  m.manage();
  CHECK(m.endpoints().size() == 2, "%zu transports after one was replaced", m.endpoints().size());
  for (auto& x : m.endpoints()) CHECK(x.first->isConnected(), "a dead transport is kept");
}
CASE("", "a factory that declines")
{
  auto f = std::make_shared<F>(); EndpointManagerPoll m(f);
  m.addEndpointFactory("a", [](const Transport::Ptr&) { return std::make_shared<E>("a"); });
  m.addEndpointFactory("b", [](const Transport::Ptr&) -> Endpoint::Ptr { return nullptr; });
  m.addEndpointFactory("c", [](const Transport::Ptr&) { return std::make_shared<E>("c"); });
  f->shown = { 1 };
  m.manage();
  auto e = m.endpoints();
  CHECK(e.size() == 1 && e.begin()->second.size() == 2 && e.begin()->second.count("a") && e.begin()->second.count("c"), "endpoints");
}
