// C23: the trace reader fed through a pipe, with callbacks registered and disabled at known and at random moments
#define VH_MAIN
#include "h.h"
#include <thread>
#include <atomic>
#include <memory>
#include <mutex>
#include <scalopus_tracing/babeltrace_parser.h>
using scalopus::BabeltraceParser;
using scalopus::CTFEvent;
using EC = BabeltraceParser::EventCallback;

static std::string mkline(unsigned long i, size_t pad = 0)
{
  std::string h = "host";
  h += std::string(pad, 'x');
  return "[1544361620.739021131] " + h + " scalopus_scope_id:exit: { cpu_id = 2 }, { vpid = 14897, pthread_id = 139688084124608 }, { id = " + std::to_string(i) + " }";
}
struct Rec
{
  std::shared_ptr<EC> cb{ std::make_shared<EC>() };
  std::mutex m;
  std::vector<std::string> got;
  std::vector<unsigned long> ids;
  std::atomic<size_t> n{ 0 };
  std::atomic<bool> dead{ false };
  std::function<void(Rec&)> on;
  Rec()
  {
    cb->callback = [this](const CTFEvent& e) {
      CHECK(!dead.load(), "a disabled callback was called");
      std::string l = e.line();
      while (!l.empty() && (l.back() == '\n' || l.back() == '\r')) l.pop_back();
      auto it = e.eventData().find("id");
      {
        std::lock_guard<std::mutex> g(m);
        got.push_back(l);
        ids.push_back(it == e.eventData().end() ? ~0ul : it->second);
      }
      n++;
      if (on) on(*this);
    };
  }
  void disable() { cb->disable(); dead = true; }
  std::vector<std::string> lines() { std::lock_guard<std::mutex> g(m); return got; }
};
struct Reader
{
  int p[2];
  FILE* f;
  BabeltraceParser parser;
  std::thread t;
  std::atomic<bool> ended{ false };
  Reader()
  {
    if (pipe(p)) exit(2);
    f = fdopen(p[0], "r");
    t = std::thread([this] { parser.process(f); ended = true; });
    CHECK(vh::eventually([&] { return parser.isProcessing(); }), "the reader does not run");
  }
  void line(const std::string& s, bool nl = true)
  {
    std::string x = s + (nl ? "\n" : "");
    for (size_t i = 0; i < x.size();) { ssize_t r = write(p[1], x.data() + i, x.size() - i); if (r <= 0) exit(2); i += r; }
  }
  void eof() { close(p[1]); p[1] = -1; t.join(); }
  ~Reader() { if (p[1] >= 0) eof(); fclose(f); }
};
static void expect(Rec& r, const std::vector<std::string>& want, const char* who)
{
  auto g = r.lines();
  for (size_t i = 0; i < g.size() && i < want.size(); i++)
    CHECK(g[i] == want[i], "%s: event %zu is not of the line expected (%zu against %zu characters)", who, i, g[i].size(), want[i].size());
  CHECK(g.size() == want.size(), "%s received %zu events, expected %zu", who, g.size(), want.size());
}
static void upto(Rec& r, size_t n, const char* who)
{
  CHECK(vh::eventually([&] { return r.n.load() >= n; }), "%s received %zu events of %zu", who, r.n.load(), n);
}

CASE("C23", "all lines to all callbacks, in order")
{
  Reader rd;
  Rec a, b, c;
  rd.parser.setCallback(a.cb); rd.parser.setCallback(b.cb); rd.parser.setCallback(c.cb);
  std::vector<std::string> want;
  for (int i = 0; i < (vh::thorough() ? 2000 : 300); i++) { want.push_back(mkline(i)); rd.line(want.back()); }
  rd.eof();
  expect(a, want, "first"); expect(b, want, "second"); expect(c, want, "third");
  for (size_t i = 0; i < want.size(); i++) CHECK(a.ids[i] == i, "event %zu carries id %lu", i, a.ids[i]);
}
CASE("C23", "lines of any length, the last without newline")
{
  Reader rd;
  Rec a;
  rd.parser.setCallback(a.cb);
  std::vector<std::string> want;
  size_t base = mkline(0).size();
  int i = 0;
  for (size_t n : { 1000, 1021, 1022, 1023, 1024, 1025, 1026, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 65535, 65536, 70000, 300 })
  {
    std::string l = mkline(i % 10, n > base ? n - base : 0);
    want.push_back(l);
    rd.line(l);
    i++;
  }
  want.push_back("short"); rd.line("short");
  want.push_back(mkline(7)); rd.line(want.back(), false);
  rd.eof();
  expect(a, want, "callback");
}
CASE("C23", "callbacks disabled between lines: first, last, any, all")
{
  for (int n = 1; n <= 4; n++)
    for (int mask = 0; mask < (1 << n); mask++)
    {
      Reader rd;
      std::vector<std::unique_ptr<Rec>> rs;
      for (int i = 0; i < n; i++) { rs.emplace_back(new Rec); rd.parser.setCallback(rs[i]->cb); }
      std::vector<std::string> before, all;
      for (int i = 0; i < 3; i++) { before.push_back(mkline(i)); rd.line(before.back()); for (auto& r : rs) upto(*r, i + 1, "callback"); }
      all = before;
      std::vector<std::weak_ptr<EC>> ws;
      for (int i = 0; i < n; i++) if (mask >> i & 1) { rs[i]->disable(); ws.push_back(rs[i]->cb); rs[i]->cb.reset(); }
      for (int i = 3; i < 6; i++) { all.push_back(mkline(i)); rd.line(all.back()); for (int k = 0; k < n; k++) if (!(mask >> k & 1)) upto(*rs[k], i + 1, "callback left"); }
      Rec probe;
      rd.parser.setCallback(probe.cb);
      rd.line(mkline(6)); upto(probe, 1, "a callback added");
      for (auto& w : ws) CHECK(w.expired(), "a disabled callback is kept (%d callbacks, disabled %x)", n, mask);
      rd.eof();
      all.push_back(mkline(6));
      for (int k = 0; k < n; k++) expect(*rs[k], (mask >> k & 1) ? before : all, "callback");
    }
}
CASE("C23", "a callback that disables itself")
{
  Reader rd;
  Rec a, b, c;
  b.on = [](Rec& r) { if (r.n == 2) { r.dead = true; auto k = r.cb; k->active = false; } };
  rd.parser.setCallback(a.cb); rd.parser.setCallback(b.cb); rd.parser.setCallback(c.cb);
  std::vector<std::string> want;
  for (int i = 0; i < 6; i++) { want.push_back(mkline(i)); rd.line(want.back()); }
  rd.eof();
  expect(a, want, "one"); expect(c, want, "another"); expect(b, { want[0], want[1] }, "the one that disables itself");
}
CASE("C23", "registered while lines are read")
{
  Reader rd;
  std::vector<std::unique_ptr<Rec>> rs;
  std::vector<std::string> all;
  for (int i = 0; i < 10; i++)
  {
    rs.emplace_back(new Rec); rd.parser.setCallback(rs.back()->cb);
    all.push_back(mkline(i)); rd.line(all.back());
    for (size_t k = 0; k < rs.size(); k++) upto(*rs[k], i + 1 - k, "callback");
  }
  rd.parser.setCallback(rs[0]->cb);      // again: still once
  all.push_back(mkline(10)); rd.line(all.back());
  rd.eof();
  for (size_t k = 0; k < rs.size(); k++) expect(*rs[k], std::vector<std::string>(all.begin() + k, all.end()), "callback");
}
CASE("C23", "no call after disable returned, from another thread")
{
  Reader rd;
  std::atomic<bool> stop{ false };
  Rec always;
  rd.parser.setCallback(always.cb);
  std::thread w([&] { for (int i = 0; !stop; i++) rd.line(mkline(i)); });
  vh::Rng rng(vh::seed());
  int reps = vh::thorough() ? 3000 : 400;
  for (int i = 0; i < reps; i++)
  {
    auto data = std::make_shared<long>(0);
    auto in = std::make_shared<std::atomic<int>>(0);
    auto cb = std::make_shared<EC>();
    cb->callback = [data, in](const CTFEvent&) { (*in)++; for (int k = 0; k < 20; k++) (*data)++; (*in)--; };
    rd.parser.setCallback(cb);
    if (i % 3) vh::ms(0); else { volatile int x = 0; for (unsigned k = rng.below(20000); k; k--) x = x + 1; }
    cb->disable();
    CHECK(in->load() == 0, "a call is in progress after disable()");
    long d = *data;                      // a race when a call is in progress
    *data = d + 1;
    vh::ms(rng.below(4) == 0);
    CHECK(*data == d + 1, "called after disable()");
  }
  stop = true; w.join();
  rd.eof();
  auto g = always.lines();
  for (size_t i = 0; i < g.size(); i++) CHECK(g[i] == mkline(i), "line %zu skipped or repeated", i);
}
CASE("C23", "halt stops the reader")
{
  Reader rd;
  Rec a;
  rd.parser.setCallback(a.cb);
  rd.line(mkline(0)); upto(a, 1, "callback");
  rd.parser.halt();
  CHECK(vh::eventually([&] { return rd.ended.load(); }), "the reader does not end");
  CHECK(!rd.parser.isProcessing(), "still processing");
  std::weak_ptr<EC> wk = a.cb; a.cb.reset();
  CHECK(wk.expired(), "a callback is kept by a halted reader");
  rd.parser.process(nullptr);
}
