#include <cstdio>
#include <vector>
#include <deque>
#include <iterator>
#include <atomic>
#include <stdexcept>
#include "spsc_ringbuffer.h"
int main()
{
  for (int cap = 2; cap < 7; cap++) for (unsigned seed = 1; seed < 400; seed++)
  {
    scalopus::SPSCRingBuffer<std::vector<int>> rb{ std::vector<int>(cap) };
    std::deque<int> m; unsigned r = seed * 2654435761u; int n = 0;
    for (int i = 0; i < 40; i++)
    {
      r = r * 1664525u + 1013904223u;
      int op = (r >> 20) % 4;
      if (op < 2) { bool ok = rb.push(int(n)); if (ok != ((int)m.size() < cap - 1)) { printf("push\n"); return 1; } if (ok) m.push_back(n); n++; }
      else if (op == 2) { int v = -1; bool ok = rb.pop(v); if (ok != !m.empty()) { printf("pop\n"); return 1; } if (ok) { if (v != m.front()) { printf("value\n"); return 1; } m.pop_front(); } }
      else { std::vector<int> out; size_t k = (r >> 24) % 4, w = std::min(k, m.size()); size_t g = rb.pop_into(std::back_inserter(out), k); if (g != w || out.size() != w) { printf("count\n"); return 1; } for (auto x : out) { if (x != m.front()) { printf("value\n"); return 1; } m.pop_front(); } }
      if (rb.size() != m.size() || rb.empty() != m.empty()) { printf("size\n"); return 1; }
    }
  }
  return 0;
}
