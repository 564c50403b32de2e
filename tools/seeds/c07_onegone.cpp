#define VH_MAIN
#include "tu.h"
using namespace tu;
#include <atomic>
#include <algorithm>
static std::atomic<int> g_bad{ -1 };
extern "C" ssize_t send(int fd, const void* b, size_t n, int f) { if (fd == g_bad) { errno = EPIPE; return -1; } return REAL(send)(fd, b, n, f); }
static std::vector<int> g_acc; static std::mutex g_m;
extern "C" int accept(int fd, sockaddr* a, socklen_t* l) { int c = REAL(accept)(fd, a, l); std::lock_guard<std::mutex> x(g_m); g_acc.push_back(c); return c; }
CASE("", "one client cannot be written to")
{
  TransportUnix s; s.addEndpoint(echo()); CHECK(s.serve(), "serve");
  std::vector<Raw> r;
  for (int i = 0; i < 3; i++) { r.emplace_back(Raw::dial(getpid())); r.back().put(M{ 1, "echo", "q" }); r.back().expect("response"); }
  { std::lock_guard<std::mutex> x(g_m); g_bad = *std::min_element(g_acc.begin(), g_acc.end()); }
  s.broadcast("ep", bytes("hello"));
  vh::ms(100);
  int n = 0;
  for (auto& x : r) { M m; if (x.get(m, 300)) { CHECK(m.data == "hello", "payload"); n++; } }
  CHECK(n == 2, "%d of the 2 reachable clients got the broadcast", n);
}
