#include <cstdio>
#include "scalopus_tracing/internal/trace_configuration_raii.h"
#include "scalopus_tracing/trace_configurator.h"
int main()
{
  auto c = scalopus::TraceConfigurator::getInstance();
  for (int p = 0; p < 2; p++)
  {
    auto get = [&] { return p ? c->getProcessState() : c->getThreadState(); };
    for (int m = 0; m < 8; m++)
    {
      p ? c->setProcessState(m & 1) : c->setThreadState(m & 1);
      { scalopus::TraceConfigurationRAII a(p, m & 2); { scalopus::TraceConfigurationRAII b(p, m & 4); } if (get() != bool(m & 2)) { printf("inner guard did not restore\n"); return 1; } }
      if (get() != bool(m & 1)) { printf("outer guard did not restore\n"); return 1; }
    }
  }
  return 0;
}
