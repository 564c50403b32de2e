#define VH_MAIN
#include "tu.h"
using namespace tu;
CASE("", "server goes away")
{
  auto s = std::make_shared<TransportUnix>(); CHECK(s->serve(), "serve");
  TransportUnix c; CHECK(c.connect(getpid()), "connect"); CHECK(c.isConnected(), "connected");
  vh::ms(50); s.reset();
  CHECK(vh::eventually([&] { return !c.isConnected(); }, 4000), "still claims to be connected");
}
