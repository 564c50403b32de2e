#define VH_MAIN
#include "h.h"
#include <scalopus_tracing/ctfevent.h>
using Map = std::map<std::string, unsigned long long int>;
static scalopus::CTFEvent ev(const std::string& spec, const std::string& group)
{
  return scalopus::CTFEvent("[1544361620.739021131] eagle " + spec + ": { cpu_id = 2 }, { vpid = 14897, pthread_id = 139688084124608 }, { " + group + " }");
}
static void data(const std::string& g, const Map& want)
{
  auto m = ev("scalopus_scope_id:exit", g).eventData();
  CHECK(m == want, "'%s' has %zu entries, expected %zu, or others", g.c_str(), m.size(), want.size());
}
CASE("C15", "entries")
{
  data("id = 1", { { "id", 1 } });
  data("id = 1, value = 2", { { "id", 1 }, { "value", 2 } });
  data("id = 1, , value = 2", { { "id", 1 }, { "value", 2 } });
  data(", id = 1", { { "id", 1 } });
  data("name = \"a\", id = 1", { { "id", 1 } });
  // the key of the second is ", b" in one reading and "b" in another; a reading that loses an entry is none
  data("a = 5, , , b = 6", { { "a", 5 }, { "b", 6 } });
}
CASE("C15", "entries that end in a delimiter") { data("id = 1, ,", { { "id", 1 } }); data("id = 1,  = 2", { { "id", 1 }, { "", 2 } }); }
CASE("C15", "separators in a text") { data("name = x = 7, id = 1", { { "id", 1 } }); data("a = b = 3", {}); }
CASE("C15", "trace points")
{
  auto e = ev("scalopus:scope:exit", "id = 1");
  CHECK(e.domain() == "scalopus", "domain '%s'", e.domain().c_str());
  CHECK(e.name() == "scope:exit", "name '%s'", e.name().c_str());
}
