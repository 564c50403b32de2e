#define VH_MAIN
#include "h.h"
#include <scalopus_transport/transport_loopback.h>
using namespace scalopus;
struct E : Endpoint { std::string getName() const override { return "e"; } bool handle(Transport&, const Data& q, Data& r) override { r.insert(r.end(), q.begin(), q.end()); return !q.empty(); } };
CASE("", "requests handled in one round")
{
  TransportLoopbackFactory f; auto s = f.serve(); s->addEndpoint(std::make_shared<E>());
  auto c = f.connect(f.discover().at(0));
  for (int i = 0; i < 20; i++)
  {
    std::vector<Transport::PendingResponse> v;
    for (unsigned char k = 1; k < 5; k++) v.push_back(c->request("e", { k }));
    for (unsigned char k = 1; k < 5; k++)
    {
      CHECK(v[k - 1]->wait_for(std::chrono::seconds(5)) == std::future_status::ready, "no answer");
      CHECK(v[k - 1]->get() == Data{ k }, "answer to another request");
    }
  }
}
