// the producer is observed at the moment it writes the slot: nothing may be readable yet
#include <cstdio>
#include <vector>
#include <iterator>
#include <functional>
#include <stdexcept>
#include "spsc_ringbuffer.h"
static std::function<void()> g_hook;
struct V
{
  int x{ 0 };
  V() = default; V(int i) : x(i) {}
  V(V&& o) : x(o.x) {}
  V& operator=(V&& o) { auto h = g_hook; g_hook = nullptr; if (h) h(); x = o.x; return *this; }
};
int main()
{
  scalopus::SPSCRingBuffer<std::vector<V>> rb{ std::vector<V>(4) };
  int bad = 0;
  g_hook = [&] { V v(-1); if (rb.pop(v)) { printf("consumer read %d before it was written\n", v.x); bad = 1; } };
  rb.push(V(42));
  V v; 
  if (!bad && (!rb.pop(v) || v.x != 42)) bad = 1;
  return bad;
}
