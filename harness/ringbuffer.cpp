// C03, C04: ring buffer against a queue; the concurrent cases are built with ThreadSanitizer, which reports a slot that
// is handed over without a happens-before edge.
#define VH_MAIN
#include "h.h"
#include <atomic>
#include <deque>
#include <memory>
#include <thread>
#include <array>
#include <iterator>
#include <cstdint>
#include "spsc_ringbuffer.h"

struct Ev { uint64_t a{ 0 }; uint32_t b{ 0 }; std::unique_ptr<uint64_t> p; };
static Ev mk(uint64_t x) { Ev e; e.a = x; e.b = (uint32_t)(x * 7); if (x % 3) e.p.reset(new uint64_t(x)); return e; }
static bool same(const Ev& e, uint64_t x) { return e.a == x && e.b == (uint32_t)(x * 7) && (x % 3 ? (e.p && *e.p == x) : !e.p); }
static uint64_t mkU(uint64_t x) { return x; }
static bool sameU(uint64_t e, uint64_t x) { return e == x; }

template <class T, class C, class Mk, class Same>
static void seqrun(C&& cont, Mk mkv, Same eq, vh::Rng& rng, int ops, const char* what)
{
  const size_t N = cont.size();
  scalopus::SPSCRingBuffer<typename std::decay<C>::type> rb(std::move(cont));
  std::deque<uint64_t> q;
  uint64_t next = 1;
  std::string hist;
  int bias = 0;
  for (int i = 0; i < ops; i++)
  {
    CHECK(rb.size() == q.size(), "%s N=%zu after %s: size() = %zu, %zu values stored", what, N, hist.c_str(), rb.size(), q.size());
    CHECK(rb.empty() == q.empty(), "%s N=%zu after %s: empty() = %d, %zu values stored", what, N, hist.c_str(), (int)rb.empty(), q.size());
    // phases that mostly fill and phases that mostly drain, so that full and empty are reached at every position
    if (i % 40 == 0) bias = (int)rng.below(4);
    int op = (int)rng.below(8);
    if (bias == 0) op = (int)rng.below(5);
    if (bias == 1 && op < 3) op = 4 + (int)rng.below(4);
    if (op < 4)
    {
      T v = mkv(next);
      bool r = rb.push(std::move(v));
      hist += " push";
      CHECK(r == (q.size() < N - 1), "%s N=%zu after %s: returned %d with %zu values stored", what, N, hist.c_str(), (int)r, q.size());
      if (r) q.push_back(next);
      else CHECK(eq(v, next), "%s N=%zu after %s: rejected push took the value", what, N, hist.c_str());
      next++;
    }
    else if (op < 6)
    {
      T v = mkv(99991);
      bool r = rb.pop(v);
      hist += " pop";
      CHECK(r == !q.empty(), "%s N=%zu after %s: returned %d with %zu values stored", what, N, hist.c_str(), (int)r, q.size());
      if (r) { CHECK(eq(v, q.front()), "%s N=%zu after %s: not the oldest value", what, N, hist.c_str()); q.pop_front(); }
      else CHECK(eq(v, 99991), "%s N=%zu after %s: failed pop changed the target", what, N, hist.c_str());
    }
    else
    {
      std::vector<T> out;
      out.push_back(mkv(42));
      static const size_t big[] = { 0, 1, 2, 3, 5, 1000, (size_t)-1 };
      size_t n = big[rng.below(7)];
      size_t r = rb.pop_into(std::back_inserter(out), n);
      hist += " pop_into(" + std::to_string(n) + ")";
      size_t want = std::min(n, q.size());
      CHECK(r == want && out.size() == want + 1, "%s N=%zu after %s: returned %zu, delivered %zu, expected %zu", what, N, hist.c_str(), r, out.size() - 1, want);
      CHECK(eq(out[0], 42), "%s: output overwritten", what);
      for (size_t k = 0; k < want; k++) { CHECK(eq(out[k + 1], q.front()), "%s N=%zu after %s: value %zu is wrong", what, N, hist.c_str(), k); q.pop_front(); }
    }
    if (hist.size() > 200) hist = ".." + hist.substr(hist.size() - 150);
  }
}
template <class T, class Mk, class Same>
static void all(Mk mkv, Same eq, const char* what)
{
  vh::Rng rng(vh::seed());
  int reps = vh::thorough() ? 200 : 20;
  for (int k = 0; k < reps; k++)
    for (size_t N : { 1, 2, 3, 4, 5, 7, 8, 16 })
    {
      std::vector<T> c; for (size_t i = 0; i < N; i++) c.push_back(mkv(777));
      seqrun<T>(std::move(c), mkv, eq, rng, 120, what);
    }
  for (int k = 0; k < reps; k++) { std::array<T, 4> c; seqrun<T>(std::move(c), mkv, eq, rng, 120, what); }
}
CASE("C03", "plain values against a queue") { all<uint64_t>(mkU, sameU, "uint64"); }
CASE("C03", "owning values against a queue") { all<Ev>(mk, same, "struct"); }
CASE("C03", "an empty container is refused")
{
  bool thrown = false;
  try { scalopus::SPSCRingBuffer<std::vector<int>> r(std::vector<int>{}); } catch (const std::exception&) { thrown = true; }
  CHECK(thrown, "no exception");
}

template <class T, class Mk, class Same>
static void conc(Mk mkv, Same eq, size_t N, uint64_t total, int mode)
{
  std::vector<T> c; for (size_t i = 0; i < N; i++) c.push_back(mkv(777));
  scalopus::SPSCRingBuffer<std::vector<T>> rb(std::move(c));
  std::thread prod([&] {
    for (uint64_t i = 1; i <= total; i++)
    {
      T v = mkv(i);
      while (!rb.push(std::move(v))) std::this_thread::yield();
    }
  });
  uint64_t want = 1;
  while (want <= total)
  {
    if (mode == 0 || (mode == 2 && want % 5))
    {
      T v = mkv(0);
      if (rb.pop(v)) { CHECK(eq(v, want), "N=%zu: value %llu is wrong, lost or repeated", N, (unsigned long long)want); want++; }
      else std::this_thread::yield();
    }
    else
    {
      std::vector<T> out;
      size_t n = rb.pop_into(std::back_inserter(out), 1 + want % 7);
      CHECK(n == out.size(), "N=%zu: returned %zu delivered %zu", N, n, out.size());
      if (!n) std::this_thread::yield();
      for (auto& v : out) { CHECK(eq(v, want), "N=%zu: value %llu is wrong, lost or repeated", N, (unsigned long long)want); want++; }
    }
  }
  prod.join();
  CHECK(rb.size() == 0, "not empty at the end");
}
static uint64_t total() { return vh::thorough() ? 60000 : 4000; }
CASE("C04", "plain values, pop") { for (size_t n : { 2, 3, 8, 64 }) conc<uint64_t>(mkU, sameU, n, total(), 0); }
CASE("C04", "plain values, pop_into") { for (size_t n : { 2, 3, 8, 64 }) conc<uint64_t>(mkU, sameU, n, total(), 1); }
CASE("C04", "owning values, pop") { for (size_t n : { 2, 3, 8, 64 }) conc<Ev>(mk, same, n, total(), 0); }
CASE("C04", "owning values, pop_into") { for (size_t n : { 2, 3, 8, 64 }) conc<Ev>(mk, same, n, total(), 1); }
CASE("C04", "owning values, both") { for (size_t n : { 2, 3, 8, 64 }) conc<Ev>(mk, same, n, total(), 2); }
