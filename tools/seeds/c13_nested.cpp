#include <cstdio>
#include <scalopus_tracing/scope_tracing_provider.h>
using P = scalopus::ScopeTracingProvider;
int main()
{
  for (std::string s : { "a", "a/b", "/", "a/", "/b", "a/b/c", "//" })
  {
    auto k = s.find('/'); auto r = P::splitCounterSeriesName(s);
    std::string c = k == std::string::npos ? s : s.substr(0, k), x = k == std::string::npos ? "count" : s.substr(k + 1);
    if (r.first != c || r.second != x) { printf("'%s' is split into '%s' and '%s'\n", s.c_str(), r.first.c_str(), r.second.c_str()); return 1; }
  }
  return 0;
}
