#define VH_MAIN
#include "tu.h"
using namespace tu;
CASE("", "endpoint replaced")
{
  TransportUnix t;
  auto a = echo("n"), b = echo("n");
  t.addEndpoint(a); CHECK(t.getEndpoint("n") == a, "first");
  t.addEndpoint(b); CHECK(t.getEndpoint("n") == b, "the endpoint added last is not found");
}
