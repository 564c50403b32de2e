#define VH_MAIN
#include "h.h"
#include <atomic>
#include <set>
#include <map>
#include <thread>
#include <vector>
#include <memory>
#include <pthread.h>
#include "tracepoint_collector_native.h"
using namespace scalopus;
using C = TracePointCollectorNative;
using Buf = tracepoint_collector_types::ScopeBufferPtr;
static void push(const Buf& b, unsigned id) { tracepoint_collector_types::StaticTraceEvent e; e.trace_id = id; b->push(std::move(e)); }
static std::map<unsigned, int> got;
static void take(const Buf& b)
{
  std::vector<tracepoint_collector_types::StaticTraceEvent> r;
  b->pop_into(std::back_inserter(r), b->size());
  for (auto& e : r) got[e.trace_id]++;
}
static void collect()
{
  auto c = C::getInstance();
  auto o = c->retrieveAndClearOrphanedBuffers();
  for (auto& x : c->getActiveMap()) o.push_back(x);
  for (auto& x : o) take(x.second);
}
// as many single events as threads, each thread collected after it has exited
CASE("", "events of threads that have exited")
{
  auto c = C::getInstance();
  unsigned n = 0;
  for (int k = 1; k <= 12; k++)
  {
    for (int i = 0; i < k; i++) { std::thread t([&] { push(c->getBuffer(), n++); }); t.join(); }
    collect();
    CHECK(got.size() == n, "%zu of %u events collected", got.size(), n);
  }
  for (auto& x : got) CHECK(x.second == 1, "event %u collected %d times", x.first, x.second);
}
CASE("", "several threads at the same time")
{
  auto c = C::getInstance();
  unsigned n = 0;
  for (int k = 1; k <= 12; k++)
  {
    std::atomic<int> up{ 0 }; std::atomic<bool> go{ false };
    std::vector<std::thread> ts;
    for (int i = 0; i < k; i++) ts.emplace_back([&, id = n + i] { auto b = c->getBuffer(); push(b, id); up++; while (!go) sched_yield(); CHECK(c->getBuffer() == b, "same buffer"); });
    n += k;
    while (up < k) sched_yield();
    CHECK((int)c->getActiveMap().size() == k, "all threads are active");
    go = true;
    for (auto& t : ts) t.join();
    collect();
    CHECK(got.size() == n, "%zu of %u events collected", got.size(), n);
    CHECK(c->getActiveMap().empty() && c->retrieveAndClearOrphanedBuffers().empty(), "nothing left");
  }
}
// a buffer may be collected while its thread goes on; events pushed after that and before the exit still count
CASE("", "collected, then pushed to again")
{
  auto c = C::getInstance();
  unsigned n = 0;
  for (int k = 0; k < 30; k++)
  {
    std::atomic<int> step{ 0 };
    std::thread t([&] {
      auto b = c->getBuffer();
      push(b, n++);
      step = 1; while (step < 2) sched_yield();
      b = c->getBuffer();
      push(b, n++);
      step = 3; while (step < 4) sched_yield();
    });
    while (step < 1) sched_yield();
    if (k % 2) collect();
    step = 2; while (step < 3) sched_yield();
    if (k % 3 == 1) collect();
    step = 4;
    t.join();
    CHECK(c->getActiveMap().empty(), "an exited thread is active");
    if (k % 5) collect();
  }
  collect();
  CHECK(got.size() == n, "%zu of %u events collected", got.size(), n);
}
CASE("", "a collector at work while threads exit")
{
  auto c = C::getInstance();
  std::atomic<bool> done{ false };
  std::thread col([&] { while (!done) collect(); });
  unsigned n = 0;
  for (int r = 0; r < 3000; r++)
  {
    std::vector<std::thread> ts;
    for (int k = 0; k < 8; k++) ts.emplace_back([&, id = n + k] { push(c->getBuffer(), id); });
    n += 8;
    for (auto& t : ts) t.join();
  }
  done = true; col.join(); collect();
  CHECK(got.size() == n, "%zu of %u events collected", got.size(), n);
}
