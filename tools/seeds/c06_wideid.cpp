#define VH_MAIN
#include "tu.h"
using namespace tu;
CASE("", "large request id")
{
  TransportUnix s; s.addEndpoint(echo()); CHECK(s.serve(), "serve");
  Raw r(Raw::dial(getpid()));
  for (unsigned long long id : { 1ull, 0xffffffffull, 0x100000005ull, 0xfffffffffffffff0ull })
  {
    r.put(M{ id, "echo", "q" }); M m = r.expect("response");
    CHECK(m.id == id && m.data == "echo:q", "request %llu answered with id %llu", id, m.id);
  }
}
