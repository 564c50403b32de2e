#define VH_MAIN
#include "h.h"
#include <algorithm>
#include <sys/socket.h>
#include <sys/un.h>
#include <memory>
#include "transport_unix.h"
#include <scalopus_transport/transport_unix.h>
// sockets of the names that other processes' servers would have; abstract names only
static int server(unsigned pid)
{
  sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
  std::string n = std::to_string(pid) + "_scalopus";
  memcpy(a.sun_path + 1, n.data(), n.size());
  int fd = socket(AF_UNIX, SOCK_STREAM, 0);
  CHECK(fd >= 0, "socket");
  if (bind(fd, (sockaddr*)&a, sizeof(a.sun_family) + 1 + n.size()) != 0) return -1;
  CHECK(listen(fd, 4) == 0, "listen");
  return fd;
}
static size_t listed(const std::vector<unsigned>& pids)
{
  scalopus::TransportUnixFactory f;
  size_t n = 0;
  auto l = f.discover();
  for (auto p : pids) n += 1 == std::count_if(l.begin(), l.end(), [p](const scalopus::Destination::Ptr& d) { auto u = std::dynamic_pointer_cast<scalopus::DestinationUnix>(d); return u && u->pid_ == p; });
  return n;
}
CASE("C19", "process ids of any width")
{
  std::vector<unsigned> p = { 900000001, 900065537, 65536 * 9999 };
  for (auto x : p) CHECK(server(x) >= 0, "bind");
  CHECK(listed(p) == p.size(), "%zu of %zu servers are listed", listed(p), p.size());
}
CASE("C19", "a hundred servers")
{
  std::vector<unsigned> p;
  for (unsigned i = 0; i < 100; i++) { p.push_back(910000000 + i); CHECK(server(p.back()) >= 0, "bind"); }
  CHECK(listed(p) == p.size(), "%zu of %zu servers are listed", listed(p), p.size());
}
