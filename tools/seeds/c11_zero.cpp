#include <cstdio>
#include <vector>
#include "scalopus_tracing/internal/scope_trace_raii.h"
static std::vector<long> g;
namespace scalopus { void scope_entry(const unsigned int id) { g.push_back(id); } void scope_exit(const unsigned int id) { g.push_back(-(long)id - 1); } }
int main()
{
  for (unsigned id : { 0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu })
  {
    g.clear();
    { scalopus::TraceRAII t(id); }
    if (g != std::vector<long>{ (long)id, -(long)id - 1 }) { printf("scope %u is not balanced (%zu events)\n", id, g.size()); return 1; }
  }
  return 0;
}
