#define VH_MAIN
#include "h.h"
#include <atomic>
#include <scalopus_transport/transport_loopback.h>
using namespace scalopus;
struct E : Endpoint { std::atomic<int> n{ 0 }; std::string getName() const override { return "e"; } bool unsolicited(Transport&, const Data&, Data&) override { n++; return false; } };
CASE("", "a client left before the broadcast")
{
  TransportLoopbackFactory f; auto s = f.serve();
  auto a = f.connect(f.discover().at(0)), b = f.connect(f.discover().at(0)), c = f.connect(f.discover().at(0));
  auto ea = std::make_shared<E>(), ec = std::make_shared<E>(); a->addEndpoint(ea); c->addEndpoint(ec);
  b.reset();
  s->broadcast("e", { 1 });
  CHECK(vh::eventually([&] { return ea->n == 1; }, 4000), "first client is not told");
  CHECK(vh::eventually([&] { return ec->n == 1; }, 4000), "last client is not told");
}
