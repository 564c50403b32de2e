#include <cstdio>
#include <pthread.h>
#include <nlohmann/json.hpp>
#include <scalopus_tracing/trace_configurator.h>
#include <scalopus_tracing/endpoint_trace_configurator.h>
using namespace scalopus; using json = nlohmann::json;
struct T : Transport { PendingResponse request(const std::string&, const Data&) override { return nullptr; } std::size_t pendingRequests() const override { return 0; } };
int main()
{
  auto c = TraceConfigurator::getInstance(); c->setThreadState(true);
  T t; EndpointTraceConfigurator e;
  json s; s["p"] = true; s["sp"] = false; s["t"] = std::map<unsigned long, bool>{ { 1, false }, { (unsigned long)pthread_self(), false } };
  json q; q["cmd"] = "set"; q["state"] = s;
  Data r; e.handle(t, json::to_bson(q), r);
  if (c->getThreadState()) { printf("a listed thread was not set\n"); return 1; }
  return 0;
}
