// C22: what a recording session sends for recordings of different sizes, sources and message ids
#include <cstdio>
#include <chrono>
#include <mutex>
#include <thread>
#include <nlohmann/json.hpp>
#include "trace_session.h"
using namespace scalopus;
using json = nlohmann::json;
static std::mutex m;
static std::vector<std::string> sent;
struct Src : TraceEventSource
{
  int base, n;
  Src(int b, int n_) : base(b), n(n_) {}
  std::vector<json> finishInterval() override { std::vector<json> r; for (int i = 0; i < n; i++) r.push_back({ { "seq", base + i } }); return r; }
};
static int record(std::vector<int> counts, json id)
{
  { std::lock_guard<std::mutex> l(m); sent.clear(); }
  TraceSession s([](std::string x) { std::lock_guard<std::mutex> l(m); sent.push_back(x); });
  s.setLogger([](const std::string&) {});
  int total = 0;
  for (int c : counts) { TraceEventSource::Ptr p = std::make_shared<Src>(total, c); total += c; s.addSource(std::move(p)); }
  s.incoming(json{ { "method", "Tracing.end" }, { "id", id } }.dump());
  std::vector<std::string> v;
  for (int i = 0; i < 3000; i++)
  {
    std::this_thread::sleep_for(std::chrono::milliseconds(10));
    std::lock_guard<std::mutex> l(m);
    v = sent;
    if (!v.empty() && v.back().find("Tracing.tracingComplete") != std::string::npos) break;
  }
  if (v.size() < 2) return printf("no complete answer\n"), 1;
  json a = json::parse(v[0]);
  if (!a.count("id") || a["id"] != id || !a.count("result")) return printf("acknowledgement %s for id %s\n", v[0].c_str(), id.dump().c_str()), 1;
  int next = 0;
  for (size_t k = 1; k + 1 < v.size(); k++)
  {
    json c = json::parse(v[k]);
    if (c["method"] != "Tracing.dataCollected" || c["params"]["value"].size() > 1000) return printf("bad chunk\n"), 1;
    for (auto& e : c["params"]["value"]) { if (e["seq"] != next) return printf("event %s sent instead of %d\n", e.dump().c_str(), next), 1; next++; }
  }
  if (next != total) return printf("%d of %d events sent\n", next, total), 1;
  return 0;
}
int main()
{
  return record({}, 1) || record({ 0, 0 }, 2) || record({ 5, 3 }, 3) || record({ 3, 5 }, 4) || record({ 1000 }, 5) || record({ 999, 2 }, 6) || record({ 2000, 1, 1500 }, 7) ||
         record({ 4 }, "abc") || record({ 4 }, nullptr) || record({ 70000 }, 8);
}
