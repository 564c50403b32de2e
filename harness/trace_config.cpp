// C10: trace enable flags and scoped configuration, under ThreadSanitizer
#define VH_MAIN
#include "h.h"
#include <thread>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <pthread.h>
#include <scalopus_tracing/trace_macro.h>
#include <scalopus_tracing/trace_configurator.h>
using namespace scalopus;
static TraceConfigurator::Ptr tc() { return TraceConfigurator::getInstance(); }
static void on_thread(const std::function<void()>& f) { std::thread t(f); t.join(); }
static unsigned long self() { return (unsigned long)pthread_self(); }

CASE("C10", "defaults")
{
  CHECK(tc() && tc() == tc(), "one configurator");
  TraceConfigurator::Ptr other;
  on_thread([&] { other = tc(); });
  CHECK(other == tc(), "another thread gets another configurator");
  CHECK(tc()->getProcessState(), "process tracing starts disabled");
  CHECK(tc()->getThreadState(), "thread tracing starts disabled");
  tc()->setThreadState(false);
  on_thread([&] { CHECK(tc()->getThreadState(), "a new thread starts disabled"); });
  tc()->setProcessState(false);
  on_thread([&] { CHECK(tc()->getThreadState(), "a new thread starts disabled when the process is"); CHECK(*tc()->getThreadStatePtr(), "flag"); });
}
CASE("C10", "first use is a set or a pointer")
{
  on_thread([&] { CHECK(tc()->setThreadState(false) == true, "previous value of a fresh thread"); CHECK(!tc()->getThreadState(), "set"); });
  on_thread([&] { CHECK(tc()->setThreadState(true) == true, "previous value of a fresh thread"); CHECK(tc()->getThreadState(), "set"); });
  on_thread([&] { auto p = tc()->getThreadStatePtr(); CHECK(p && p->load(), "pointer of a fresh thread"); p->store(false); CHECK(!tc()->getThreadState(), "pointer is the flag"); });
  CHECK(tc()->setProcessState(false) == true, "previous value");
  CHECK(tc()->getProcessStatePtr() && !*tc()->getProcessStatePtr(), "process pointer");
  tc()->getProcessStatePtr()->store(true);
  CHECK(tc()->getProcessState(), "process pointer is the flag");
}
// several threads, driven in lock step against a model
struct Worker
{
  std::mutex m; std::condition_variable c; std::function<void()> job; bool stop = false; std::thread t; unsigned long id = 0;
  Worker() { t = std::thread([this] { id = self(); std::unique_lock<std::mutex> l(m); c.notify_all(); for (;;) { c.wait(l, [&] { return job || stop; }); if (!job) return; job(); job = nullptr; c.notify_all(); } }); run([] {}); }
  void run(std::function<void()> f) { std::unique_lock<std::mutex> l(m); job = f; c.notify_all(); c.wait(l, [&] { return !job; }); }
  void end() { { std::lock_guard<std::mutex> l(m); stop = true; c.notify_all(); } t.join(); }
};
CASE("C10", "random operations of several threads against a model")
{
  vh::Rng r(vh::seed());
  for (int rep = 0; rep < (vh::thorough() ? 40 : 8); rep++)
  {
    std::vector<Worker*> w(5, nullptr);
    std::vector<std::vector<TraceConfigurationRAII*>> scopes(5);
    std::vector<std::vector<std::pair<bool, bool>>> saved(5);
    std::map<int, bool> flag; bool proc = tc()->getProcessState();
    for (int i = 0; i < 300; i++)
    {
      int k = (int)r.below(5);
      if (!w[k]) { w[k] = new Worker(); flag.erase(k); }
      switch (r.below(9))
      {
        case 0: { bool b = r.below(2); bool e = flag.count(k) ? flag[k] : true; w[k]->run([&] { CHECK(tc()->setThreadState(b) == e, "setThreadState returns something else than the previous value"); }); flag[k] = b; break; }
        case 1: { bool b = r.below(2); w[k]->run([&] { CHECK(tc()->setProcessState(b) == proc, "setProcessState returns something else than the previous value"); }); proc = b; break; }
        case 2: case 3:
        {
          bool p = r.below(2), b = r.below(2);
          if (scopes[k].size() > 5) break;
          if (!flag.count(k) && !p) flag[k] = true;
          saved[k].push_back({ p, p ? proc : flag[k] });
          w[k]->run([&] { scopes[k].push_back(new TraceConfigurationRAII(p, b)); });
          (p ? proc : flag[k]) = b;
          break;
        }
        case 4: case 5:
          if (!scopes[k].empty())
          {
            w[k]->run([&] { delete scopes[k].back(); scopes[k].pop_back(); });
            (saved[k].back().first ? proc : flag[k]) = saved[k].back().second;
            saved[k].pop_back();
          }
          break;
        case 6:
          if (r.below(6) == 0 && scopes[k].empty())
          {
            unsigned long id = w[k]->id;
            w[k]->end(); delete w[k]; w[k] = nullptr; flag.erase(k);
            CHECK(tc()->getThreadMap().count(id) == 0, "an exited thread is still in the table");
          }
          break;
        case 7:
        {
          std::map<unsigned long, bool> want; size_t n = 0;
          auto m = tc()->getThreadMap();
          for (auto& f : flag) if (w[f.first]) { n++; CHECK(m.count(w[f.first]->id) && m[w[f.first]->id], "thread missing from the table"); CHECK(m[w[f.first]->id]->load() == f.second, "thread's entry in the table"); }
          CHECK(m.size() - m.count(self()) == n, "table has %zu entries, expected %zu", m.size(), n);
          break;
        }
        default: break;
      }
      for (int j = 0; j < 5; j++)
        if (w[j] && flag.count(j))
        {
          bool e = flag[j];
          w[j]->run([&] { CHECK(tc()->getThreadState() == e, "thread %d: flag is %d", j, (int)!e); CHECK(tc()->getThreadStatePtr()->load() == e, "thread %d: flag pointer", j); });
        }
      CHECK(tc()->getProcessState() == proc, "process flag is %d", (int)!proc);
      CHECK(tc()->getProcessStatePtr()->load() == proc, "process flag pointer");
    }
    for (int j = 0; j < 5; j++)
      if (w[j])
      {
        w[j]->run([&] { while (!scopes[j].empty()) { delete scopes[j].back(); scopes[j].pop_back(); } });
        w[j]->end();
        delete w[j];
      }
    CHECK(tc()->getThreadMap().size() == tc()->getThreadMap().count(self()), "entries left after all threads exited");
  }
}
CASE("C10", "scoped macros nest")
{
  auto c = tc();
  {
    TRACING_CONFIG_THREAD_STATE_RAII(false);
    CHECK(!c->getThreadState() && c->getProcessState(), "thread scope");
    {
      TRACING_CONFIG_PROCESS_STATE_RAII(false);
      CHECK(!c->getThreadState() && !c->getProcessState(), "process scope in it");
      { TRACING_CONFIG_THREAD_STATE_RAII(true); CHECK(c->getThreadState() && !c->getProcessState(), "third"); c->setProcessState(true); c->setThreadState(false); }
      CHECK(!c->getThreadState() && c->getProcessState(), "after third");
      c->setThreadState(true);
    }
    CHECK(c->getThreadState() && c->getProcessState(), "after second");
  }
  CHECK(c->getThreadState() && c->getProcessState(), "after first");
  c->setThreadState(false);
  { TRACING_CONFIG_THREAD_STATE_RAII(true); CHECK(c->getThreadState(), "on"); }
  CHECK(!c->getThreadState(), "restored off");
  c->setProcessState(false);
  { TRACING_CONFIG_PROCESS_STATE_RAII(false); c->setProcessState(true); }
  CHECK(!c->getProcessState(), "restored off");
  try { TRACING_CONFIG_PROCESS_STATE_RAII(true); throw 1; } catch (int) {}
  CHECK(!c->getProcessState(), "restored by an exception");
}
CASE("C10", "exchange is one step")
{
  // of n concurrent exchanges to true exactly one sees false
  for (int rep = 0; rep < (vh::thorough() ? 3000 : 500); rep++)
  {
    tc()->setProcessState(false);
    std::atomic<int> seen{ 0 }, go{ 0 };
    std::vector<std::thread> ts;
    for (int i = 0; i < 3; i++) ts.emplace_back([&] { go++; while (go < 3) {} if (!tc()->setProcessState(true)) seen++; });
    for (auto& t : ts) t.join();
    CHECK(seen == 1, "%d setters saw the old value", (int)seen);
  }
}
CASE("C10", "threads come and go while others read the table")
{
  std::atomic<bool> stop{ false };
  std::vector<std::thread> ts;
  for (int i = 0; i < 3; i++)
    ts.emplace_back([&] {
      for (int j = 0; j < (vh::thorough() ? 1500 : 300); j++)
        on_thread([&] {
          CHECK(tc()->getThreadState(), "a new thread starts disabled");
          auto p = tc()->getThreadStatePtr();
          { TraceConfigurationRAII s(false, false); CHECK(!*p, "scope sets the flag"); }
          CHECK(*p && tc()->getThreadStatePtr() == p, "a thread keeps its flag");
        });
    });
  std::thread rd([&] { while (!stop) for (auto& e : tc()->getThreadMap()) { CHECK(e.second, "null flag"); e.second->load(); } });
  for (auto& t : ts) t.join();
  stop = true;
  rd.join();
  CHECK(tc()->getThreadMap().empty(), "%zu entries left after all threads exited", tc()->getThreadMap().size());
}
