// C08: the endpoint registry, also while the worker serves requests (built with ThreadSanitizer: an unguarded access to
// the registry stops the case)
#define VH_MAIN
#include "tu.h"
using namespace tu;

CASE("C08", "the registry holds the last endpoint added per name")
{
  auto& t = *new TransportUnix;
  std::map<std::string, std::shared_ptr<scalopus::Endpoint>> ref;
  vh::Rng r(vh::seed());
  for (int i = 0; i < 400; i++)
  {
    std::string n = "ep" + std::to_string(r.below(12));
    if (r.below(7) == 0) n = "";
    if (r.below(3))
    {
      auto e = std::make_shared<Ep>(n);
      t.addEndpoint(e); ref[n] = e;
      CHECK(e->getTransport() == &t, "an endpoint that was added does not know its transport");
    }
    auto it = ref.find(n);
    auto g = t.getEndpoint(n);
    CHECK(g == (it == ref.end() ? nullptr : it->second), "lookup of '%s' after %d steps", n.c_str(), i);
    CHECK(t.getEndpoint("ep") == nullptr && t.getEndpoint(n + "x") == nullptr && t.getEndpoint(std::string("ep1\0", 4)) == nullptr, "an endpoint nobody added");
    auto v = t.endpoints();
    CHECK(v.size() == ref.size(), "%zu endpoints listed, %zu were added", v.size(), ref.size());
    for (auto& x : v) CHECK(ref.count(x.first) && ref[x.first] == x.second, "lists '%s'", x.first.c_str());
  }
}
CASE("C08", "endpoints added and looked up while requests are served")
{
  auto& t = *new TransportUnix;
  t.addEndpoint(echo());
  CHECK(t.serve(), "serve");
  int rounds = vh::thorough() ? 3000 : 400;
  std::atomic<int> left{ 3 };
  std::vector<std::thread> ts;
  for (int k = 0; k < 2; k++) ts.emplace_back([&, k]
  {
    for (int i = 0; i < rounds; i++)
    {
      std::string n = "t" + std::to_string(k) + "_" + std::to_string(i % 50);
      auto e = echo(n); t.addEndpoint(e);
      CHECK(t.getEndpoint(n) == e, "an endpoint just added is not found");
      CHECK(e->getTransport() == &t, "transport not set");
      if (i % 4 == 0) { auto v = t.endpoints(); CHECK(v.count(n) && v[n] == e, "an endpoint just added is not listed"); }
    }
    left--;
  });
  ts.emplace_back([&]
  {
    Raw a(Raw::dial(getpid())); int i = 0;
    while (left > 1) { i++; a.put(M{ (unsigned long long)i, "echo", "x" }); M m = a.expect("reply"); CHECK(m.id == (unsigned)i && m.data == "echo:x", "reply"); }
    left--;
  });
  for (auto& x : ts) x.join();
  Raw a(Raw::dial(getpid()));
  for (int k = 0; k < 2; k++) for (int i = 0; i < 50; i++)
  {
    std::string n = "t" + std::to_string(k) + "_" + std::to_string(i);
    a.put(M{ 7, n, "y" }); M m = a.expect("reply"); CHECK(m.data == n + ":y", "endpoint %s was not reached", n.c_str());
  }
}
CASE("C08", "endpoints added while a client receives broadcasts")
{
  RawServer rs; auto& t = *new TransportUnix;
  auto news = std::make_shared<Ep>("news"); t.addEndpoint(news);
  CHECK(t.connect(getpid()), "connect");
  Raw p = rs.take(); int n = 300;
  std::thread w([&] { for (int i = 0; i < n; i++) { t.addEndpoint(std::make_shared<Ep>("e" + std::to_string(i))); CHECK(t.getEndpoint("e" + std::to_string(i)) != nullptr, "not found"); } });
  for (int i = 0; i < n; i++) p.put(M{ 0, "news", std::to_string(i) });
  w.join();
  CHECK(vh::eventually([&] { return (int)news->u().size() == n; }), "%zu of %d broadcasts reached the endpoint", news->u().size(), n);
  auto v = t.endpoints(); CHECK((int)v.size() == n + 1, "%zu endpoints listed", v.size());
}
