#define VH_MAIN
#include "h.h"
#include <thread>
#include <memory>
#include <scalopus_tracing/babeltrace_parser.h>
using scalopus::BabeltraceParser;
static std::string mkline(int i)
{
  return "[1544361620.739021131] eagle scalopus_scope_id:exit: { cpu_id = 2 }, { vpid = 14897, pthread_id = 139688084124608 }, { id = " + std::to_string(i) + " }";
}
static void run(unsigned gone, bool nl)
{
  int p[2];
  CHECK(pipe(p) == 0, "pipe");
  FILE* f = fdopen(p[0], "r");
  BabeltraceParser parser;
  std::vector<std::shared_ptr<BabeltraceParser::EventCallback>> cb;
  std::vector<std::vector<unsigned long long>> got(3);
  for (int i = 0; i < 3; i++)
  {
    cb.push_back(std::make_shared<BabeltraceParser::EventCallback>());
    cb.back()->callback = [&got, i](const scalopus::CTFEvent& e) { got[i].push_back(e.eventData().at("id")); };
    parser.setCallback(cb.back());
    if (gone >> i & 1) cb.back()->disable();
  }
  std::string s;
  for (int i = 0; i < 3; i++) s += mkline(i) + (i < 2 || nl ? "\n" : "");
  CHECK(write(p[1], s.data(), s.size()) == (ssize_t)s.size(), "write");
  close(p[1]);
  parser.process(f);
  for (int i = 0; i < 3; i++)
  {
    size_t want = (gone >> i & 1) ? 0 : 3;
    CHECK(got[i].size() == want, "callback %d got %zu events, expected %zu", i, got[i].size(), want);
    for (size_t k = 0; k < want; k++) CHECK(got[i][k] == k, "order");
  }
  fclose(f);
}
CASE("C23", "inactive ones are dropped") { for (unsigned g = 0; g < 8; g++) run(g, true); }
CASE("C23", "no newline at the end") { run(0, false); }
