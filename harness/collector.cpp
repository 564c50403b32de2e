// C21: buffers of threads that exit
#include <dlfcn.h>
#include <pthread.h>
#define VH_MAIN
#include "h.h"
#include <atomic>
#include <functional>
#include <mutex>
#include <condition_variable>
#include <map>
#include <set>
#include <thread>
#include <vector>
#include <memory>
#include <shared_mutex>
#define private public
#include "tracepoint_collector_native.h"
#undef private
using namespace scalopus;
using C = TracePointCollectorNative;
using Buf = tracepoint_collector_types::ScopeBufferPtr;
// runs between any two critical sections of a thread that asks for it
static thread_local int depth = 0;
static thread_local void (*between)() = nullptr;
static void left()
{
  if (depth > 0) depth--;
  if (between && depth == 0) { auto f = between; between = nullptr; f(); between = f; }
}
#define WRAP(name, T, after) \
  extern "C" int name(T* m) { static auto f = (int (*)(T*))dlsym(RTLD_NEXT, #name); int r = f(m); if (r == 0) { after; } return r; }
WRAP(pthread_mutex_lock, pthread_mutex_t, depth++)
WRAP(pthread_mutex_unlock, pthread_mutex_t, left())
WRAP(pthread_rwlock_rdlock, pthread_rwlock_t, depth++)
WRAP(pthread_rwlock_wrlock, pthread_rwlock_t, depth++)
WRAP(pthread_rwlock_unlock, pthread_rwlock_t, left())
static int count_active(const Buf& b)
{
  int n = 0;
  for (auto& x : C::getInstance()->getActiveMap()) n += x.second == b;
  return n;
}
static int count_orphan(const Buf& b, unsigned long tid)
{
  auto c = C::getInstance();
  std::lock_guard<std::mutex> l(c->orphaned_mutex_);
  int n = 0;
  for (auto& x : c->orphaned_tid_buffers_) if (x.second == b) { n++; CHECK(x.first == tid, "orphan under id %lu, thread was %lu", x.first, tid); }
  return n;
}
static Buf* mine = nullptr;
static unsigned long mytid = 0;
static int looks = 0;
static void look() { looks++; CHECK(count_active(*mine) + count_orphan(*mine, mytid) >= 1, "the buffer is neither active nor an orphan while its thread exits"); }
static void push(const Buf& b, unsigned id)
{
  tracepoint_collector_types::StaticTraceEvent e; e.trace_id = id;
  b->push(std::move(e));
}
CASE("C21", "a thread's buffer while it runs and after it exits")
{
  auto c = C::getInstance();
  CHECK(c && c == C::getInstance(), "one collector");
  CHECK(c->getActiveMap().empty() && c->retrieveAndClearOrphanedBuffers().empty(), "nothing at the start");
  for (int round = 0; round < 6; round++)
  {
    static Buf kept; static unsigned long tid; kept = nullptr;
    mine = &kept;
    std::thread t([&] {
      kept = c->getBuffer(); mytid = tid = (unsigned long)pthread_self();
      CHECK(kept, "a buffer");
      for (int i = 0; i < 3; i++) { CHECK(c->getBuffer() == kept, "asking again gives the same buffer"); push(kept, 10 * round + i); }
      auto m = c->getActiveMap();
      CHECK(m.count(tid) && m.at(tid) == kept && count_active(kept) == 1 && count_orphan(kept, tid) == 0, "active while the thread runs");
      between = look;
    });
    t.join();
    CHECK(count_active(kept) == 0, "active after the thread has exited");
    CHECK(count_orphan(kept, tid) == 1, "%d times an orphan after the thread has exited", count_orphan(kept, tid));
    CHECK(looks > 0, "looked");
    if (round % 3 == 2)
    {
      auto o = c->retrieveAndClearOrphanedBuffers();
      CHECK(o.size() == 3, "%zu orphans", o.size());
      for (int k = 0; k < 3; k++)
      {
        std::vector<tracepoint_collector_types::StaticTraceEvent> r;
        o[k].second->pop_into(std::back_inserter(r), 10);
        CHECK(r.size() == 3, "%zu events of an exited thread", r.size());
        for (int i = 0; i < 3; i++) CHECK((int)r[i].trace_id == 10 * (round - 2 + k) + i, "event %d", i);
      }
      CHECK(c->retrieveAndClearOrphanedBuffers().empty(), "orphans are handed over once");
    }
  }
}
CASE("C21", "threads that reuse an id and threads without a buffer")
{
  auto c = C::getInstance();
  std::set<Buf> all;
  for (int i = 0; i < 40; i++)
  {
    Buf b;
    std::thread t([&] { if (i % 4 == 3) return; b = c->getBuffer(); push(b, i); });
    t.join();
    if (b) { CHECK(!all.count(b), "a buffer given to two threads"); all.insert(b); }
  }
  CHECK(c->getActiveMap().empty(), "none active");
  auto o = c->retrieveAndClearOrphanedBuffers();
  CHECK(o.size() == all.size(), "%zu orphans of %zu threads", o.size(), all.size());
  for (auto& x : o) { CHECK(all.count(x.second), "unknown or repeated orphan"); all.erase(x.second); }
}
// tracepoints in destructors of other thread_local objects, after the collector's own has run
static std::vector<Buf>* late = nullptr;
struct Late { bool on = false; ~Late() { if (on) { auto b = C::getInstance()->getBuffer(); push(b, 99); late->push_back(b); } } };
CASE("C21", "events pushed while the thread's other objects are destroyed")
{
  auto c = C::getInstance();
  static std::vector<Buf> seen; late = &seen;
  Buf b;
  std::thread t([&] { static thread_local Late l; l.on = true; b = c->getBuffer(); push(b, 1); });
  t.join();
  CHECK(seen.size() == 1, "late event");
  auto o = c->retrieveAndClearOrphanedBuffers();
  for (auto& x : { b, seen[0] })
  {
    int n = count_active(x);
    for (auto& y : o) n += y.second == x;
    CHECK(n >= 1, "a buffer is lost");
  }
}
CASE("C21", "threads, exits and collection at the same time")
{
  auto c = C::getInstance();
  c->setRingbufferSize(2000);
  std::atomic<bool> done{ false };
  std::map<unsigned, int> got;
  auto collect = [&] {
    auto o = c->retrieveAndClearOrphanedBuffers();
    for (auto& x : c->getActiveMap()) o.push_back(x);
    for (auto& x : o)
    {
      std::vector<tracepoint_collector_types::StaticTraceEvent> r;
      x.second->pop_into(std::back_inserter(r), x.second->size());
      for (auto& e : r) got[e.trace_id]++;
    }
  };
  std::thread col([&] { while (!done) collect(); });
  unsigned rounds = vh::thorough() ? 400 : 60, next = 0;
  for (unsigned i = 0; i < rounds; i++)
  {
    std::vector<std::thread> ts;
    for (int k = 0; k < 6; k++, next += 5) ts.emplace_back([&, next] { auto b = c->getBuffer(); for (unsigned j = 0; j < 5; j++) { push(c->getBuffer(), next + j); } CHECK(c->getBuffer() == b, "same buffer"); });
    for (auto& t : ts) t.join();
  }
  done = true;
  col.join();
  collect();
  CHECK(got.size() == next, "%zu of %u events collected", got.size(), next);
  for (auto& x : got) CHECK(x.second == 1, "event %u collected %d times", x.first, x.second);
  CHECK(c->getActiveMap().empty(), "none active");
}
