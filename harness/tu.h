// raw peers and endpoints for exercising TransportUnix
#pragma once
#include "h.h"
#include <atomic>
#include <mutex>
#include <set>
#include <thread>
#include <memory>
#include <future>
#include <dlfcn.h>
#include <errno.h>
#include <poll.h>
#include <dirent.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/un.h>
#include "transport_unix.h"

namespace tu
{
using scalopus::Data;
using scalopus::TransportUnix;
inline Data bytes(const std::string& s) { return Data(s.begin(), s.end()); }
inline std::string str(const Data& d) { return std::string(d.begin(), d.end()); }

struct Ep : scalopus::Endpoint
{
  std::string name;
  std::function<bool(const Data&, Data&)> on, un;
  std::mutex m;
  std::vector<std::string> handled, unsol;
  scalopus::Transport* with{ nullptr };
  Ep(std::string n, std::function<bool(const Data&, Data&)> f = nullptr) : name(n), on(f) {}
  std::string getName() const override { return name; }
  bool handle(scalopus::Transport& t, const Data& in, Data& out) override
  {
    { std::lock_guard<std::mutex> l(m); handled.push_back(str(in)); with = &t; }
    return on ? on(in, out) : false;
  }
  bool unsolicited(scalopus::Transport& t, const Data& in, Data& out) override
  {
    { std::lock_guard<std::mutex> l(m); unsol.push_back(str(in)); with = &t; }
    return un ? un(in, out) : false;
  }
  std::vector<std::string> h() { std::lock_guard<std::mutex> l(m); return handled; }
  std::vector<std::string> u() { std::lock_guard<std::mutex> l(m); return unsol; }
};
inline std::shared_ptr<Ep> echo(std::string n = "echo")
{
  return std::make_shared<Ep>(n, [n](const Data& in, Data& out) { out = bytes(n + ":"); out.insert(out.end(), in.begin(), in.end()); return true; });
}

struct M { unsigned long long id{ 0 }; std::string name, data; };
inline std::string enc(const M& m)
{
  std::string s;
  auto put = [&](unsigned long long v, int n) { for (int i = 0; i < n; i++) s.push_back((char)(v >> (8 * i))); };
  put(m.id, 8); put(m.name.size(), 2); s += m.name; put(m.data.size(), 4); s += m.data;
  return s;
}
// real system calls, past the interposed ones
template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(n) tu::real<decltype(&::n)>(#n)

inline sockaddr_un address(int pid, socklen_t& len)
{
  sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX;
  std::string n = std::to_string(pid) + "_scalopus";
  memcpy(a.sun_path + 1, n.data(), n.size());
  len = (socklen_t)(sizeof(a.sun_family) + 1 + n.size());
  return a;
}
struct Raw
{
  int fd{ -1 };
  std::string buf;
  Raw(int f = -1) : fd(f) {}
  static int dial(int pid)
  {
    int fd = REAL(socket)(AF_UNIX, SOCK_STREAM, 0);
    socklen_t n; auto a = address(pid, n);
    for (int i = 0; i < 200; i++)
    {
      if (REAL(connect)(fd, (sockaddr*)&a, n) == 0) return fd;
      vh::ms(5);
    }
    vh::fail("cannot reach the serving transport");
    return -1;
  }
  void put(const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t r = REAL(send)(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL); if (r <= 0) vh::fail("peer closed while writing to it"); o += r; } }
  void put(const M& m) { put(enc(m)); }
  bool fill(size_t n, int limit)
  {
    for (int i = 0; buf.size() < n; )
    {
      pollfd p{ fd, POLLIN, 0 };
      int r = poll(&p, 1, 5);
      if (r > 0) { char b[65536]; ssize_t k = ::read(fd, b, sizeof b); if (k <= 0) return false; buf.append(b, k); }
      else { i += 5; if (i > limit) return false; }
    }
    return true;
  }
  unsigned long long num(size_t o, int n) { unsigned long long v = 0; for (int i = n - 1; i >= 0; i--) v = v << 8 | (unsigned char)buf[o + i]; return v; }
  bool get(M& m, int limit = 8000)
  {
    if (!fill(10, limit)) return false;
    m.id = num(0, 8);
    size_t n = num(8, 2);
    if (!fill(14 + n, limit)) return false;
    m.name = buf.substr(10, n);
    size_t d = num(10 + n, 4);
    if (!fill(14 + n + d, limit)) return false;
    m.data = buf.substr(14 + n, d);
    buf.erase(0, 14 + n + d);
    return true;
  }
  M expect(const char* what) { M m; if (!get(m)) vh::fail(std::string("no message arrives: ") + what); return m; }
  void nothing(const char* what, int limit = 60) { M m; if (get(m, limit)) vh::fail(std::string("unexpected message: ") + what + " id " + std::to_string(m.id) + " name " + m.name + " data " + m.data.substr(0, 40)); }
  bool closed(int limit = 8000)
  {
    for (int i = 0; i < limit; i += 5)
    {
      pollfd p{ fd, POLLIN, 0 };
      if (poll(&p, 1, 5) > 0) { char b[4096]; ssize_t k = ::read(fd, b, sizeof b); if (k <= 0) return true; buf.append(b, k); i = 0; }
    }
    return false;
  }
  void hang() { if (fd >= 0) REAL(close)(fd); fd = -1; }
};
// a server of our own under this process's name
struct RawServer
{
  int fd;
  RawServer()
  {
    fd = REAL(socket)(AF_UNIX, SOCK_STREAM, 0);
    socklen_t n; auto a = address(getpid(), n);
    if (REAL(bind)(fd, (sockaddr*)&a, n) || REAL(listen)(fd, 5)) vh::fail("cannot set up the raw server");
  }
  Raw take() { int c = REAL(accept)(fd, nullptr, nullptr); if (c < 0) vh::fail("raw accept"); return Raw(c); }
  void hang() { REAL(close)(fd); }
};
inline int threads()
{
  int n = 0; DIR* d = opendir("/proc/self/task");
  while (auto* e = readdir(d)) if (e->d_name[0] != '.') n++;
  closedir(d);
  return n;
}
inline std::set<int> fds()
{
  std::set<int> r; DIR* d = opendir("/proc/self/fd"); int me = dirfd(d);
  while (auto* e = readdir(d)) if (e->d_name[0] != '.') { int f = atoi(e->d_name); if (f != me) r.insert(f); }
  closedir(d);
  return r;
}
inline bool ready(std::shared_ptr<std::future<Data>>& f, int limit = 8000) { return f->wait_for(std::chrono::milliseconds(limit)) == std::future_status::ready; }
// content of a resolved future; "!exception" when it carries an error
inline std::string value(std::shared_ptr<std::future<Data>> f, int limit = 8000)
{
  if (f == nullptr) return "!null";
  if (!ready(f, limit)) return "!pending";
  try { return str(f->get()); } catch (const std::exception& e) { return "!exception"; }
}
}
