// C09: MapTracker against a map, and from several threads under ThreadSanitizer
#define VH_MAIN
#include "h.h"
#include <thread>
#include <atomic>
#include <memory>
#include <scalopus_general/map_tracker.h>

template <class K, class V, class Mk>
static void seq(Mk mk, const char* what)
{
  vh::Rng rng(vh::seed());
  int reps = vh::thorough() ? 400 : 60;
  for (int r = 0; r < reps; r++)
  {
    scalopus::MapTracker<K, V> t;
    std::map<K, V> m;
    for (int i = 0; i < 200; i++)
    {
      K k = (K)rng.below(8);
      if (k == 7) k = (K)-1;
      switch (rng.below(12))
      {
        case 0: case 1: case 2: case 3: { V v = mk(rng.next() % 1000); t.insert(k, v); m[k] = v; break; }
        case 4: case 5: t.erase(k); m.erase(k); break;
        case 6: if (rng.below(10) == 0) { t.clear(); m.clear(); } break;
        case 7: CHECK(t.exists(k) == (m.count(k) > 0), "%s: exists(%llu)", what, (unsigned long long)k); break;
        default:
        {
          bool thrown = false, oor = false; V got{};
          try { got = t.getValue(k); } catch (const std::out_of_range&) { thrown = oor = true; } catch (...) { thrown = true; }
          CHECK(thrown == (m.count(k) == 0), "%s: getValue(%llu) of %s key: exception %d", what, (unsigned long long)k, m.count(k) ? "a present" : "an absent", (int)thrown);
          CHECK(!thrown || oor, "%s: getValue of an absent key raises something else", what);
          if (!thrown) CHECK(got == m[k], "%s: getValue(%llu)", what, (unsigned long long)k);
        }
      }
      auto c = t.getMap();
      CHECK(c.size() == m.size(), "%s: copy has %zu entries, expected %zu", what, c.size(), m.size());
      for (auto& e : m) CHECK(c.count(e.first) && c.at(e.first) == e.second, "%s: copy differs at %llu", what, (unsigned long long)e.first);
    }
  }
}
CASE("C09", "unsigned int -> string") { seq<unsigned int, std::string>([](unsigned long x) { return "n" + std::to_string(x); }, "uint/string"); }
CASE("C09", "unsigned long -> string") { seq<unsigned long, std::string>([](unsigned long x) { return "a longer name, beyond the small buffer " + std::to_string(x); }, "ulong/string"); }
CASE("C09", "unsigned long -> pointer") { seq<unsigned long, std::shared_ptr<int>>([](unsigned long x) { return std::make_shared<int>((int)x); }, "ulong/ptr"); }
static void wr(scalopus::MapTracker<unsigned long, std::string>& t, int id, int n, std::atomic<bool>& stop)
{
  for (int i = 0; i < n && !stop; i++)
  {
    unsigned long k = i % 50 + 1000 * id;
    t.insert(k, std::string(40, (char)('a' + i % 26)));
    CHECK(t.exists(k), "own key %lu missing after insert", k);
    CHECK(t.getValue(k) == std::string(40, (char)('a' + i % 26)), "own key %lu has another value", k);
    if (i % 7 == 0) { t.erase(k); CHECK(!t.exists(k), "own key %lu still there after erase", k); }
    if (i % 5 == 0) { auto m = t.getMap(); for (auto& e : m) CHECK(e.second.size() == 40, "torn value"); }
  }
}
CASE("C09", "threads, each operation against each")
{
  scalopus::MapTracker<unsigned long, std::string> t;
  std::atomic<bool> stop{ false };
  std::vector<std::thread> ts;
  int n = vh::thorough() ? 4000 : 600;
  for (int id = 1; id <= 4; id++) ts.emplace_back([&, id] { wr(t, id, n, stop); });
  for (auto& x : ts) x.join();
}
CASE("C09", "threads, clear against readers")
{
  scalopus::MapTracker<unsigned long, std::string> t;
  std::vector<std::thread> ts;
  int n = vh::thorough() ? 4000 : 6000;
  for (int id = 0; id < 4; id++)
    ts.emplace_back([&, id] {
      for (int i = 0; i < n; i++)
      {
        if (id == 0) t.clear();
        else if (id == 1) t.insert(i % 20, std::string(40, 'x'));
        else if (id == 2) { t.exists(i % 20); t.getMap(); t.erase(i % 20); }
        else { try { auto v = t.getValue(i % 20); CHECK(v == std::string(40, 'x'), "torn value"); } catch (const std::out_of_range&) {} }
      }
    });
  for (auto& x : ts) x.join();
}
CASE("C09", "clear is all at once")
{
  for (int rep = 0; rep < 20; rep++)
  {
    scalopus::MapTracker<unsigned long, std::string> t;
    for (unsigned long i = 0; i < 200; i++) t.insert(i, "x");
    std::atomic<bool> done{ false };
    std::thread c([&] { t.clear(); done = true; });
    for (bool last = false; !last;)
    {
      last = done;
      size_t n = t.getMap().size();
      CHECK(n == 0 || n == 200, "%zu of 200 entries seen during clear()", n);
    }
    c.join();
    CHECK(t.getMap().empty(), "not empty after clear()");
  }
}
