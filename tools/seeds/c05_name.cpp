#define VH_MAIN
#include "tu.h"
using namespace tu;
CASE("", "response to an abandoned request")
{
  RawServer rs; TransportUnix c;
  bool ok = false; std::thread t([&] { ok = c.connect(getpid()); });
  Raw r = rs.take(); t.join(); CHECK(ok, "connect");
  auto a = c.request("x", bytes("a")); M ma = r.expect("a");
  a.reset(); CHECK(vh::eventually([&] { return c.pendingRequests() == 0; }), "pending");
  auto b = c.request("x", bytes("b")); M mb = r.expect("b");
  r.put(M{ ma.id, ma.name, "A" }); vh::ms(50);
  r.put(M{ mb.id, mb.name, "B" });
  std::string got = value(b);
  CHECK(got == "B", "request b got the response %s", got.c_str());
}
