// C01, C02: framing. read/recv and send/write on the tested descriptors are cut into scripted fragments.
#define VH_MAIN
#include "h.h"
#include <sys/socket.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <errno.h>
#include <thread>
#include <cstdint>
#include "protocol.h"
using scalopus::protocol::Msg;

static int g_rfd = -1, g_wfd = -1;
static std::vector<size_t> g_rscript;
static size_t g_rpos = 0;
static long g_read_calls = 0, g_fail_read_at = -1;
static long g_send_calls = 0, g_fail_send_at = -1, g_short_send_at = -1;
static long g_close_at = -1;
static int g_close_fd = -1;
static size_t cut(size_t n)
{
  if (g_rscript.empty()) return n;
  size_t c = g_rscript[g_rpos++ % g_rscript.size()];
  return n == 0 ? 0 : (c < n ? c : n);
}
extern "C" ssize_t read(int fd, void* b, size_t n)
{
  if (fd == g_rfd)
  {
    if (g_read_calls++ == g_fail_read_at) { errno = EIO; return -1; }
    if (g_read_calls > 3000000) { vh::fail("reads without end"); }
    n = cut(n);
  }
  return syscall(SYS_read, fd, b, n);
}
extern "C" ssize_t recv(int fd, void* b, size_t n, int fl)
{
  if (fd == g_rfd)
  {
    if (g_read_calls++ == g_fail_read_at) { errno = EIO; return -1; }
    if (g_read_calls > 3000000) { vh::fail("reads without end"); }
    n = cut(n);
  }
  return syscall(SYS_recvfrom, fd, b, n, fl, nullptr, nullptr);
}
extern "C" ssize_t send(int fd, const void* b, size_t n, int fl)
{
  if (fd == g_wfd)
  {
    long k = g_send_calls++;
    if (k == g_close_at) syscall(SYS_close, g_close_fd);
    if (k == g_fail_send_at) { errno = EIO; return -1; }
    if (k == g_short_send_at && n > 1) n = n - 1;
  }
  return syscall(SYS_sendto, fd, b, n, fl, nullptr, 0);
}

static void enc(std::string& o, const Msg& m)
{
  uint64_t id = m.request_id; uint16_t nl = m.endpoint.size(); uint32_t dl = m.data.size();
  o.append((char*)&id, 8); o.append((char*)&nl, 2); o.append(m.endpoint); o.append((char*)&dl, 4); o.append((char*)m.data.data(), m.data.size());
}
static Msg mk(uint64_t id, size_t nl, size_t dl, unsigned s)
{
  Msg m; m.request_id = id; m.endpoint.resize(nl); m.data.resize(dl);
  for (size_t i = 0; i < nl; i++) m.endpoint[i] = char((i * 7 + s) & 255);
  for (size_t i = 0; i < dl; i++) m.data[i] = (unsigned char)((i * 13 + s * 3) & 255);
  return m;
}
static bool eq(const Msg& a, const Msg& b) { return a.request_id == b.request_id && a.endpoint == b.endpoint && a.data == b.data; }
static int sv[2];
static void pairup()
{
  CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, sv) == 0, "socketpair");
  int sz = 4 << 20; setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); setsockopt(sv[1], SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz);
  g_wfd = sv[0]; g_rfd = sv[1]; g_read_calls = g_send_calls = 0; g_fail_read_at = g_fail_send_at = g_short_send_at = -1; g_rpos = 0; g_rscript.clear();
}
static std::vector<Msg> sample()
{
  std::vector<Msg> v;
  size_t ns[] = { 0, 1, 5, 255, 256, 4095, 4096, 4097, 8192, 32767, 32768, 65535 };
  size_t ds[] = { 0, 1, 7, 255, 256, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 65535, 65536, 70000, 200000 };
  uint64_t ids[] = { 0, 1, 255, 256, 0xffffffffULL, 0x100000000ULL, 0x8000000000000000ULL, ~0ULL };
  unsigned s = 1;
  for (size_t n : ns) v.push_back(mk(ids[s % 8], n, ds[(s * 5) % 16], s)), s++;
  for (size_t d : ds) v.push_back(mk(ids[s % 8], ns[(s * 3) % 12], d, s)), s++;
  for (uint64_t id : ids) v.push_back(mk(id, 6, 9, s)), s++;
  return v;
}
static void raw_write(int fd, const std::string& b)
{
  size_t o = 0;
  while (o < b.size()) { ssize_t r = syscall(SYS_write, fd, b.data() + o, b.size() - o); if (r <= 0) break; o += r; }
}
static std::string raw_read_all(int fd)
{
  std::string o; char b[65536]; ssize_t r;
  while ((r = syscall(SYS_read, fd, b, sizeof b)) > 0) o.append(b, r);
  return o;
}

CASE("C01", "send writes exactly the encoding")
{
  for (auto& m : sample())
  {
    pairup();
    std::string want, got;
    enc(want, m);
    std::thread t([&] { got = raw_read_all(sv[1]); });
    Msg copy = m;
    bool ok = scalopus::protocol::send(sv[0], m);
    shutdown(sv[0], SHUT_WR);
    t.join();
    CHECK(eq(copy, m), "message modified");
    CHECK(ok, "send of name %zu data %zu refused", m.endpoint.size(), m.data.size());
    CHECK(got == want, "name %zu data %zu id %llu: %zu bytes on the wire, %zu expected", m.endpoint.size(), m.data.size(), (unsigned long long)m.request_id, got.size(), want.size());
    close(sv[0]); close(sv[1]);
  }
}
static void streams(bool fixed)
{
  auto ms = sample();
  std::vector<std::vector<size_t>> scripts = { {}, { 1 }, { 2 }, { 3, 1 }, { 4095, 1 }, { 4096 }, { 4095 }, { 1, 4096 }, { 100 }, { 4096, 4096, 10 }, { 65536 } };
  vh::Rng r(vh::seed());
  for (int i = 0; i < (vh::thorough() ? 60 : 6); i++) { std::vector<size_t> s; for (int j = 0; j < 17; j++) s.push_back(1 + r.below(i % 2 ? 5000 : 40)); scripts.push_back(s); }
  long long L, N;
  if (vh::model("length", L) && L > 0 && L < (1 << 20)) { ms.push_back(mk(5, 3, L, 9)); for (auto k : { 1, 2, 7 }) if (L > k) scripts.push_back({ size_t(L - k) }); }
  for (auto& sc : scripts)
  {
    pairup();
    g_rscript = sc;
    std::string all;
    for (auto& m : ms) enc(all, m);
    std::thread t([&] { raw_write(sv[0], all); shutdown(sv[0], SHUT_WR); });
    size_t i = 0;
    for (auto& m : ms)
    {
      Msg g = mk(99, 3, 5, 1);
      bool ok = scalopus::protocol::receive(sv[1], g);
      CHECK(ok, "message %zu (name %zu, data %zu) not received, fragments of %zu", i, m.endpoint.size(), m.data.size(), sc.empty() ? 0 : sc[0]);
      CHECK(eq(g, m), "message %zu (id %llx, name %zu, data %zu) received as id %llx, name %zu, data %zu; fragments %zu", i, (unsigned long long)m.request_id, m.endpoint.size(), m.data.size(),
            (unsigned long long)g.request_id, g.endpoint.size(), g.data.size(), sc.empty() ? 0 : sc[0]);
      i++;
    }
    Msg g;
    CHECK(!scalopus::protocol::receive(sv[1], g), "message received after the end of the stream");
    t.join();
    close(sv[0]); close(sv[1]);
  }
}
CASE("C01 C02", "streams of messages under many fragmentations") { streams(false); }
CASE("C01", "unrepresentable messages are refused")
{
  size_t ns[] = { 65536, 65537, 65540, 131072, 131077, 200000 };
  for (size_t n : ns)
  {
    pairup();
    Msg m = mk(77, n, 10, 4);
    std::string got;
    std::thread t([&] { got = raw_read_all(sv[1]); });
    bool ok = scalopus::protocol::send(sv[0], m);
    shutdown(sv[0], SHUT_WR);
    t.join();
    CHECK(!ok, "a name of %zu bytes was sent", n);
    close(sv[0]); close(sv[1]);
  }
}
CASE("C01", "failed or short send is reported")
{
  for (int mode = 0; mode < 2; mode++)
    for (int k = 0; k < 6; k++)
    {
      pairup();
      (mode ? g_short_send_at : g_fail_send_at) = k;
      Msg m = mk(0x1234, 300, 500, 4);
      std::string got, want;
      enc(want, m);
      std::thread t([&] { got = raw_read_all(sv[1]); });
      bool ok = scalopus::protocol::send(sv[0], m);
      long calls = g_send_calls;
      shutdown(sv[0], SHUT_WR);
      t.join();
      if (ok) CHECK(got == want, "send reports success but %zu of %zu bytes were written (fault %d at call %d)", got.size(), want.size(), mode, k);
      if (k >= calls) CHECK(ok, "send without a fault fails");
      close(sv[0]); close(sv[1]);
    }
}
CASE("C01", "broken connection is no SIGPIPE")
{
  for (int k = 0; k < 6; k++)
  {
    pairup();
    g_close_at = k;
    g_close_fd = sv[1];
    Msg m = mk(1, 4, 5, 4);
    bool ok = scalopus::protocol::send(sv[0], m);
    CHECK(ok == (k >= g_send_calls), "send on a connection broken before write %d returns %d", k, ok);
    close(sv[0]);
    if (k >= g_send_calls) close(sv[1]);
  }
}
CASE("C02", "stream ending at every byte is a failure")
{
  std::vector<Msg> ms = { mk(5, 0, 0, 1), mk(0x0102030405060708ULL, 9, 11, 2), mk(7, 0, 5, 3), mk(8, 5, 0, 3) };
  std::vector<std::vector<size_t>> scripts = { {}, { 1 }, { 3 } };
  for (auto& m : ms)
    for (auto& sc : scripts)
    {
      std::string e;
      enc(e, m);
      for (size_t k = 0; k <= e.size(); k++)
      {
        pairup();
        g_rscript = sc;
        raw_write(sv[0], e.substr(0, k));
        shutdown(sv[0], SHUT_WR);
        Msg g;
        bool ok = scalopus::protocol::receive(sv[1], g);
        CHECK(ok == (k == e.size()), "stream of %zu of %zu bytes: receive returns %d", k, e.size(), ok);
        close(sv[0]); close(sv[1]);
      }
    }
  // large payloads
  Msg m = mk(5, 4, 20000, 6);
  std::string e;
  enc(e, m);
  for (size_t k : { size_t(18), size_t(19), size_t(18 + 4095), size_t(18 + 4096), size_t(18 + 4097), size_t(18 + 8192), size_t(18 + 16384), e.size() - 1, e.size() })
  {
    pairup();
    raw_write(sv[0], e.substr(0, k));
    shutdown(sv[0], SHUT_WR);
    Msg g;
    bool ok = scalopus::protocol::receive(sv[1], g);
    CHECK(ok == (k == e.size()), "stream of %zu of %zu bytes: receive returns %d", k, e.size(), ok);
    close(sv[0]); close(sv[1]);
  }
}
CASE("C02", "read error at every call is a failure and nothing beyond the message is consumed")
{
  Msg m = mk(5, 40, 9000, 6);
  std::string e;
  enc(e, m);
  for (auto sc : std::vector<std::vector<size_t>>{ {}, { 700 } })
    for (int k = 0; k < 40; k++)
    {
      pairup();
      g_rscript = sc;
      raw_write(sv[0], e + e);
      g_fail_read_at = k;
      Msg g;
      bool ok = scalopus::protocol::receive(sv[1], g);
      long calls = g_read_calls;
      CHECK(ok == (k >= calls), "read error at call %d of %ld: receive returns %d", k, calls, ok);
      if (ok)
      {
        g_fail_read_at = -1;
        Msg h;
        CHECK(scalopus::protocol::receive(sv[1], h) && eq(h, m), "second message damaged");
      }
      close(sv[0]); close(sv[1]);
    }
}
