// C05, C06, C07, C18: TransportUnix against raw peers, with system calls that fail or are delayed on demand
#define VH_MAIN
#include "tu.h"
using namespace tu;

// ---------------------------------------------------------------- interposed system calls
static std::mutex io_m;
static std::set<int> io_open;             // sockets the transport opened and did not close yet
static std::vector<std::string> io_bad;   // misuse of descriptors
static std::atomic<bool> armed{ false };
static std::atomic<int> f_socket{ 0 }, f_bind{ 0 }, f_listen{ 0 }, f_connect{ 0 }, f_accept{ 0 }, f_select{ 0 }, f_send{ 0 };
static thread_local bool slow = false;   // sends of this thread return late
static std::atomic<int> listen_fd{ -1 }, sends_to_listener{ 0 }, exc_fd{ -1 }, accepted_last{ -1 }, force_exc_next{ 0 };
static std::atomic<int> opened{ 0 };
static std::set<std::thread::id> mine;
static bool own_call() { return armed; }
static bool hit(std::atomic<int>& f) { int v = f; while (v > 0) if (f.compare_exchange_weak(v, v - 1)) return true; return false; }
static void track(int fd) { if (fd >= 0) { std::lock_guard<std::mutex> l(io_m); io_open.insert(fd); opened++; } }
static void misuse(const std::string& s) { std::lock_guard<std::mutex> l(io_m); io_bad.push_back(s); }
static bool is_open(int fd) { std::lock_guard<std::mutex> l(io_m); return io_open.count(fd); }
extern "C" {
int socket(int d, int t, int p)
{
  if (own_call() && hit(f_socket)) { errno = EMFILE; return -1; }
  int r = REAL(socket)(d, t, p);
  if (own_call()) track(r);
  return r;
}
int bind(int fd, const sockaddr* a, socklen_t n)
{
  if (own_call() && hit(f_bind)) { errno = EADDRINUSE; return -1; }
  return REAL(bind)(fd, a, n);
}
int listen(int fd, int n)
{
  if (own_call() && hit(f_listen)) { errno = EADDRINUSE; return -1; }
  if (own_call()) listen_fd = fd;
  return REAL(listen)(fd, n);
}
int connect(int fd, const sockaddr* a, socklen_t n)
{
  if (own_call() && hit(f_connect)) { errno = ECONNREFUSED; return -1; }
  return REAL(connect)(fd, a, n);
}
int accept(int fd, sockaddr* a, socklen_t* n)
{
  if (own_call() && hit(f_accept)) { errno = ECONNABORTED; return -1; }
  int r = REAL(accept)(fd, a, n);
  if (own_call()) { track(r); accepted_last = r; }
  return r;
}
int close(int fd)
{
  if (own_call())
  {
    bool was;
    { std::lock_guard<std::mutex> l(io_m); was = io_open.erase(fd); }
    if (!was) misuse("close of descriptor " + std::to_string(fd) + " which is not an open socket of the transport");
  }
  return REAL(close)(fd);
}
int shutdown(int fd, int how)
{
  if (own_call() && !is_open(fd)) misuse("shutdown of descriptor " + std::to_string(fd) + " which is not an open socket of the transport");
  return REAL(shutdown)(fd, how);
}
int select(int n, fd_set* r, fd_set* w, fd_set* x, struct timeval* t)
{
  if (own_call() && hit(f_select)) { errno = EINTR; return -1; }
  int k = REAL(select)(n, r, w, x, t);
  if (own_call() && x && k >= 0)
  {
    int f = exc_fd;
    if (f >= 0 && r && FD_ISSET(f, r)) { FD_SET(f, x); exc_fd = -1; return k + 1; }
  }
  return k;
}
ssize_t send(int fd, const void* b, size_t n, int fl)
{
  if (own_call())
  {
    if (fd == listen_fd) sends_to_listener++;
    if (!is_open(fd)) misuse("send on descriptor " + std::to_string(fd) + " which is not an open socket of the transport");
    if (hit(f_send)) { errno = EPIPE; return -1; }
  }
  ssize_t r = REAL(send)(fd, b, n, fl);
  if (own_call() && slow) vh::ms(40);
  return r;
}
}
static void arm() { armed = true; }
static void io_ok()
{
  std::lock_guard<std::mutex> l(io_m);
  if (!io_bad.empty()) vh::fail(io_bad[0]);
}
static bool io_closed(int fd) { std::lock_guard<std::mutex> l(io_m); return !io_open.count(fd); }
static size_t io_count() { std::lock_guard<std::mutex> l(io_m); return io_open.size(); }

struct Server { TransportUnix t; std::shared_ptr<Ep> e; Server() : e(echo()) { t.addEndpoint(e); CHECK(t.serve(), "serve"); } };
static Raw dial() { return Raw(Raw::dial(getpid())); }

// ---------------------------------------------------------------- C05
CASE("C05", "many threads, each future gets its own response")
{
  arm();
  Server s; TransportUnix c; CHECK(c.connect(getpid()), "connect");
  s.t.addEndpoint(echo("other"));
  std::vector<std::thread> ts;
  int n = vh::thorough() ? 400 : 60;
  for (int k = 0; k < 4; k++) ts.emplace_back([&, k] {
    for (int i = 0; i < n; i++)
    {
      std::string nm = (i + k) % 3 ? "echo" : "other", p = std::to_string(k) + "/" + std::to_string(i) + std::string(i % 7 * 100, 'x');
      auto a = c.request(nm, bytes(p)); auto b = c.request("echo", bytes("b" + p));
      auto vb = value(b), va = value(a);
      CHECK(va == nm + ":" + p, "request %s to %s got %s", p.c_str(), nm.c_str(), va.substr(0, 80).c_str());
      CHECK(vb == "echo:b" + p, "second request got %s", vb.substr(0, 80).c_str());
    } });
  for (auto& t : ts) t.join();
  CHECK(vh::eventually([&] { return c.pendingRequests() == 0; }), "pending %zu", c.pendingRequests());
}
CASE("C05", "response arrives before request() returns from send")
{
  arm();
  Server s; TransportUnix c; CHECK(c.connect(getpid()), "connect");
  slow = true;
  for (int i = 0; i < 3; i++)
  {
    auto f = c.request("echo", bytes("q" + std::to_string(i)));
    auto v = value(f, 4000);
    CHECK(v == "echo:q" + std::to_string(i), "a response that came quickly was lost: %s", v.c_str());
  }
  slow = false;
  CHECK(vh::eventually([&] { return c.pendingRequests() == 0; }), "pending %zu", c.pendingRequests());
}
CASE("C05", "request that cannot be sent")
{
  arm();
  Server s; TransportUnix c; CHECK(c.connect(getpid()), "connect");
  auto keep = c.request("nobody", bytes("stays pending"));
  f_send = 1;
  auto f = c.request("echo", bytes("lost"));
  CHECK(f != nullptr, "no future");
  CHECK(ready(f, 4000), "the future of a request that could not be sent is never resolved");
  std::string v; try { v = str(f->get()); } catch (const scalopus::communication_error&) { v = "!"; } catch (const std::future_error&) { v = "future_error"; } catch (const std::exception&) { v = "!"; }
  CHECK(v == "!", "the future of a request that could not be sent holds %s", v.c_str());
  CHECK(c.pendingRequests() == 1, "pending %zu after a failed send", c.pendingRequests());
  auto g = c.request("echo", bytes("fine"));
  CHECK(value(g) == "echo:fine", "later request");
  CHECK(vh::eventually([&] { return c.pendingRequests() == 1; }), "pending %zu", c.pendingRequests());
  CHECK(keep->wait_for(std::chrono::seconds(0)) == std::future_status::timeout, "unanswered request resolved");
}
static void raw_pair(RawServer& rs, TransportUnix& c, Raw& r) { CHECK(c.connect(getpid()), "connect"); r = rs.take(); arm(); }
CASE("C05", "responses out of order, unknown, repeated and mislabelled")
{
  RawServer rs; TransportUnix c; Raw r; arm(); raw_pair(rs, c, r);
  std::vector<std::shared_ptr<std::future<Data>>> f; std::vector<M> q;
  for (int i = 0; i < 6; i++) { f.push_back(c.request(i % 2 ? "a" : "b", bytes("p" + std::to_string(i)))); q.push_back(r.expect("request")); }
  std::set<unsigned long long> ids;
  for (int i = 0; i < 6; i++)
  {
    CHECK(q[i].id != 0, "request id 0 is reserved"); CHECK(ids.insert(q[i].id).second, "request id %llu used twice", q[i].id);
    CHECK(q[i].name == (i % 2 ? "a" : "b"), "request carries another endpoint name"); CHECK(q[i].data == "p" + std::to_string(i), "request carries another payload");
  }
  r.put(M{ 999999, "a", "unknown id" });
  r.put(M{ q[0].id, "a", "wrong name" });
  r.put(M{ q[1].id, "zzz", "wrong name" });
  r.put(M{ 0, "a", "broadcast" });
  vh::ms(50);
  for (auto& x : f) CHECK(x->wait_for(std::chrono::seconds(0)) == std::future_status::timeout, "a request was resolved by a message that does not answer it");
  for (int i : { 5, 2, 0, 4, 1, 3 })
  {
    r.put(M{ q[i].id, q[i].name, "r" + std::to_string(i) });
    auto v = value(f[i]);
    CHECK(v == "r" + std::to_string(i), "request %d got %s", i, v.c_str());
    r.put(M{ q[i].id, q[i].name, "again" });
  }
  vh::ms(50);
  CHECK(vh::eventually([&] { return c.pendingRequests() == 0; }), "pending %zu", c.pendingRequests());
  auto g = c.request("a", bytes("alive")); M m = r.expect("request"); r.put(M{ m.id, m.name, "" });
  CHECK(value(g) == "", "still works");
}
CASE("C05", "abandoned requests are dropped, others stay")
{
  RawServer rs; TransportUnix c; Raw r; arm(); raw_pair(rs, c, r);
  auto a = c.request("x", bytes("1")), b = c.request("x", bytes("2")), d = c.request("y", bytes("3"));
  M ma = r.expect("1"), mb = r.expect("2"), md = r.expect("3");
  CHECK(c.pendingRequests() == 3, "pending %zu", c.pendingRequests());
  b.reset();
  CHECK(vh::eventually([&] { return c.pendingRequests() == 2; }), "abandoned request is still pending (%zu)", c.pendingRequests());
  r.put(M{ mb.id, mb.name, "late" });
  vh::ms(30);
  CHECK(a->wait_for(std::chrono::seconds(0)) == std::future_status::timeout && d->wait_for(std::chrono::seconds(0)) == std::future_status::timeout, "late response resolved another request");
  r.put(M{ md.id, md.name, "D" }); CHECK(value(d) == "D", "later request");
  r.put(M{ ma.id, ma.name, "A" }); CHECK(value(a) == "A", "earlier request");
  CHECK(vh::eventually([&] { return c.pendingRequests() == 0; }), "pending %zu", c.pendingRequests());
  // abandoned at the same moment as answered
  for (int i = 0; i < (vh::thorough() ? 300 : 40); i++)
  {
    auto x = c.request("x", bytes("r")); M m = r.expect("request"); auto y = c.request("x", bytes("s")); M n = r.expect("request");
    std::thread t([&] { x.reset(); });
    r.put(M{ m.id, m.name, "late" }); r.put(M{ n.id, n.name, std::to_string(i) });
    t.join();
    CHECK(value(y) == std::to_string(i), "request next to an abandoned one");
  }
  CHECK(vh::eventually([&] { return c.pendingRequests() == 0; }), "pending %zu", c.pendingRequests());
}
CASE("C05", "many requests dropped at once")
{
  RawServer rs; TransportUnix c; Raw r; arm(); raw_pair(rs, c, r);
  std::vector<std::shared_ptr<std::future<Data>>> f; std::vector<M> q;
  for (int i = 0; i < 20; i++) { f.push_back(c.request("n" + std::to_string(i % 3), bytes(std::to_string(i)))); q.push_back(r.expect("request")); }
  for (int i = 0; i < 20; i++) if (i % 4 != 1) f[i].reset();
  CHECK(vh::eventually([&] { return c.pendingRequests() == 5; }), "pending %zu", c.pendingRequests());
  for (int i = 1; i < 20; i += 4) { r.put(M{ q[i].id, q[i].name, "v" + std::to_string(i) }); CHECK(value(f[i]) == "v" + std::to_string(i), "request %d", i); }
}
static void truncated(size_t cut)
{
  RawServer rs; TransportUnix c; Raw r; arm(); raw_pair(rs, c, r);
  auto f = c.request("x", bytes("1")); M m = r.expect("request");
  std::string e = enc(M{ m.id, m.name, std::string(50, 'd') });
  r.put(e.substr(0, cut)); vh::ms(5); r.hang();
  CHECK(vh::eventually([&] { return !c.isConnected(); }, 4000), "lost connection is not noticed");
  vh::ms(30);
  if (f->wait_for(std::chrono::seconds(0)) == std::future_status::ready) { bool ok = false; try { f->get(); } catch (const std::exception&) { ok = true; } CHECK(ok, "a truncated response (%zu of %zu bytes) fulfilled a request", cut, e.size()); }
}
CASE("C05", "truncated response: none of it") { truncated(0); }
CASE("C05", "truncated response: in the header") { truncated(9); }
CASE("C05", "truncated response: before the length") { truncated(11); }
CASE("C05", "truncated response: before the payload") { truncated(15); }
CASE("C05", "truncated response: in the payload") { truncated(40); }
CASE("C05", "truncated response: last byte missing") { truncated(64); }
CASE("C05", "ids are not used again")
{
  RawServer rs; TransportUnix c; Raw r; arm(); raw_pair(rs, c, r);
  int n = 66000;
  std::thread w([&] { std::shared_ptr<std::future<Data>> f; for (int i = 0; i < n; i++) f = c.request("e", bytes("x")); });
  std::set<unsigned long long> ids;
  for (int i = 0; i < n; i++) { M q = r.expect("request"); CHECK(q.id != 0 && ids.insert(q.id).second, "request id %llu used twice or reserved", q.id); }
  w.join();
}
CASE("C05", "ids are unique across threads")
{
  RawServer rs; TransportUnix c; Raw r; arm(); raw_pair(rs, c, r);
  std::vector<std::thread> ts; std::mutex m; std::vector<std::shared_ptr<std::future<Data>>> keep;
  int n = vh::thorough() ? 2000 : 400;
  for (int k = 0; k < 4; k++) ts.emplace_back([&] { for (int i = 0; i < n; i++) { auto f = c.request("e", bytes("x")); std::lock_guard<std::mutex> l(m); keep.push_back(f); } });
  std::set<unsigned long long> ids;
  for (int i = 0; i < 4 * n; i++) { M q = r.expect("request"); CHECK(q.id != 0 && ids.insert(q.id).second, "request id %llu used twice or reserved", q.id); }
  for (auto& t : ts) t.join();
  CHECK(c.pendingRequests() == (size_t)4 * n, "pending %zu of %d", c.pendingRequests(), 4 * n);
}

// ---------------------------------------------------------------- C06
CASE("C06", "replies carry the request's id, name and the handler's response, on the same connection")
{
  arm();
  Server s; s.t.addEndpoint(echo("other")); s.t.addEndpoint(echo(""));
  auto quiet = std::make_shared<Ep>("quiet", [](const Data&, Data& o) { o = bytes("must not be sent"); return false; }); s.t.addEndpoint(quiet);
  Raw a = dial(), b = dial(), c = dial();
  unsigned long long ids[] = { 1, 0, 7, ~0ULL, 1ULL << 63, 7 };
  int n = 0;
  for (auto id : ids)
  {
    std::string p = "p" + std::to_string(n++);
    a.put(M{ id, "echo", p }); b.put(M{ id + 1, "other", p + "b" });
    M m = a.expect("reply"); CHECK(m.id == id && m.name == "echo" && m.data == "echo:" + p, "reply id %llu name %s data %s to request %llu", m.id, m.name.c_str(), m.data.c_str(), id);
    m = b.expect("reply"); CHECK(m.id == id + 1 && m.name == "other" && m.data == "other:" + p + "b", "reply id %llu name %s data %s", m.id, m.name.c_str(), m.data.c_str());
  }
  a.put(M{ 5, "", "empty" }); M m = a.expect("reply of the endpoint with the empty name"); CHECK(m.name == "" && m.data == ":empty", "empty name");
  a.put(M{ 6, "unknown", "x" }); a.put(M{ 8, "quiet", "y" }); a.put(M{ 9, "ech", "z" }); a.put(M{ 10, "echo1", "z" });
  a.put(M{ 11, "echo", "after" }); m = a.expect("reply after unknown endpoints"); CHECK(m.id == 11 && m.data == "echo:after", "got id %llu data %s", m.id, m.data.c_str());
  a.nothing("a"); b.nothing("b"); c.nothing("c");
  CHECK(quiet->h().size() == 1 && quiet->h()[0] == "y", "quiet handler calls %zu", quiet->h().size());
  CHECK(s.e->h().size() == 7, "handler called %zu times for 7 requests", s.e->h().size());
  CHECK(s.e->with == &s.t, "handler gets another transport");
  io_ok();
}
CASE("C06", "requests of several connections in one round, several in one segment")
{
  arm();
  Server s; std::vector<Raw> c; int k = 5;
  for (int i = 0; i < k; i++) c.push_back(dial());
  vh::ms(30);
  for (int round = 0; round < (vh::thorough() ? 60 : 8); round++)
  {
    for (int i = 0; i < k; i++) c[i].put(enc(M{ (unsigned)(round * 10 + i), "echo", "m" + std::to_string(i) }) + enc(M{ (unsigned)(1000 + round), "echo", std::string(3000 * i, 'z') }));
    for (int i = 0; i < k; i++)
    {
      M m = c[i].expect("first"); CHECK(m.id == (unsigned)(round * 10 + i) && m.data == "echo:m" + std::to_string(i), "connection %d got id %llu %s", i, m.id, m.data.substr(0, 60).c_str());
      m = c[i].expect("second"); CHECK(m.id == (unsigned)(1000 + round) && m.data.size() == (size_t)3000 * i + 5, "connection %d second id %llu size %zu", i, m.id, m.data.size());
    }
  }
  for (auto& x : c) x.nothing("extra");
  CHECK(s.e->h().size() == (size_t)(vh::thorough() ? 60 : 8) * k * 2, "handler calls %zu", s.e->h().size());
}
static void broken(size_t cut, bool first)
{
  arm();
  Server s; Raw a = dial(), b = dial(), c = dial();
  for (Raw* x : { &a, &b, &c }) { x->put(M{ 1, "echo", "hi" }); x->expect("reply"); }
  size_t before = io_count(), calls = s.e->h().size();
  Raw& v = first ? a : b;
  std::string e = enc(M{ 77, "echo", std::string(40, 'k') });
  v.put(e.substr(0, cut)); vh::ms(5); v.hang();
  CHECK(vh::eventually([&] { return io_count() == before - 1; }, 4000), "broken connection is not closed: %zu sockets open, %zu before", io_count(), before);
  for (int i = 0; i < 3; i++) for (Raw* x : { &a, &b, &c }) if (x->fd >= 0) { x->put(M{ 3, "echo", "on" }); M m = x->expect("reply on a healthy connection"); CHECK(m.data == "echo:on", "reply"); }
  CHECK(s.e->h().size() == calls + 6, "a handler was called for a truncated request");
  Raw d = dial(); d.put(M{ 4, "echo", "new" }); CHECK(d.expect("reply on a new connection").data == "echo:new", "reply");
  io_ok();
}
CASE("C06", "connection ends between messages") { broken(0, true); }
CASE("C06", "connection breaks in the header") { broken(9, false); }
CASE("C06", "connection breaks in the name") { broken(12, true); }
CASE("C06", "connection breaks in the payload") { broken(30, false); }
CASE("C06", "the last client leaves, another comes")
{
  arm();
  Server s;
  for (int i = 0; i < 6; i++)
  {
    Raw a = dial();
    a.put(M{ 1, "echo", "hi" }); a.expect("reply to a client that came after the others left");
    if (i % 2) a.put(enc(M{ 2, "echo", "cut off" }).substr(0, 13));
    a.hang();
    vh::ms(40);
  }
  io_ok();
}
CASE("C06", "select fails while connections are idle")
{
  arm();
  Server s; Raw a = dial(), b = dial(), c = dial();
  for (Raw* x : { &a, &b, &c }) { x->put(M{ 1, "echo", "hi" }); x->expect("reply"); }
  for (int i = 0; i < 5; i++)
  {
    f_select = 1; vh::ms(25);
    c.put(M{ 2, "echo", "x" }); M m; CHECK(c.get(m, 3000), "after a failed select the others are no longer served");
    b.put(M{ 3, "echo", "y" }); CHECK(b.get(m, 3000), "after a failed select the others are no longer served");
  }
  io_ok();
}
CASE("C06", "accept fails")
{
  arm();
  Server s; Raw a = dial(); a.put(M{ 1, "echo", "hi" }); a.expect("reply");
  f_accept = 3;
  Raw b = dial();
  a.put(M{ 2, "echo", "x" }); M m; CHECK(a.get(m, 3000) && m.data == "echo:x", "while accept fails the existing connections are not served");
  b.put(M{ 3, "echo", "y" }); CHECK(b.get(m, 4000) && m.data == "echo:y", "client is never accepted after accept failed");
  io_ok();
}
CASE("C06", "accept fails for as long as a client waits")
{
  arm();
  Server s; Raw a = dial(); a.put(M{ 1, "echo", "hi" }); a.expect("reply");
  f_accept = 1 << 30;
  Raw b = dial();
  for (int i = 0; i < 5; i++) { a.put(M{ 2, "echo", "x" }); M m; CHECK(a.get(m, 3000) && m.data == "echo:x", "while accept fails the existing connections are not served"); }
  f_accept = 0;
}
CASE("C06", "connection with an exceptional condition is closed once")
{
  arm();
  Server s; Raw a = dial(); a.put(M{ 1, "echo", "hi" }); a.expect("reply"); int fa = accepted_last;
  Raw b = dial(); b.put(M{ 1, "echo", "hi" }); b.expect("reply");
  exc_fd = fa;
  a.hang();
  CHECK(vh::eventually([&] { return io_closed(fa); }, 4000), "broken connection is not closed");
  vh::ms(40);
  io_ok();
  b.put(M{ 2, "echo", "on" }); CHECK(b.expect("reply").data == "echo:on", "reply");
}
CASE("C06", "connection with an exceptional condition and a request waiting")
{
  arm();
  Server s; Raw a = dial(); a.put(M{ 1, "echo", "hi" }); a.expect("reply"); int fa = accepted_last;
  Raw b = dial(); b.put(M{ 1, "echo", "hi" }); b.expect("reply");
  exc_fd = fa;
  a.put(M{ 5, "echo", "x" });
  CHECK(vh::eventually([&] { return io_closed(fa); }, 4000), "connection with an exceptional condition is not closed");
  vh::ms(30); io_ok();
  b.put(M{ 2, "echo", "on" }); CHECK(b.expect("reply").data == "echo:on", "reply");
}
CASE("C06", "replying to a client that is gone disturbs nobody")
{
  arm();
  Server s;
  std::atomic<bool> go{ false };
  auto slow = std::make_shared<Ep>("slow", [&](const Data&, Data& o) { while (!go) vh::ms(1); o = bytes("late"); return true; }); s.t.addEndpoint(slow);
  Raw a = dial(), b = dial();
  b.put(M{ 1, "echo", "hi" }); b.expect("reply");
  size_t before = io_count();
  a.put(M{ 1, "slow", "x" }); CHECK(vh::eventually([&] { return slow->h().size() == 1; }), "handler");
  a.hang(); b.put(M{ 2, "echo", "y" }); vh::ms(5); go = true;
  M m = b.expect("reply next to a dead client"); CHECK(m.id == 2 && m.data == "echo:y", "reply");
  CHECK(vh::eventually([&] { return io_count() <= before; }, 4000), "dead connection stays open");
  io_ok();
}
CASE("C06", "large and empty payloads")
{
  arm();
  Server s; Raw a = dial();
  std::string big(3000000, 'b');
  std::thread w([&] { a.put(M{ 1, "echo", big }); a.put(M{ 2, "echo", "" }); });
  M m = a.expect("big reply"); CHECK(m.id == 1 && m.data == "echo:" + big, "big reply of %zu bytes", m.data.size());
  m = a.expect("empty reply"); CHECK(m.id == 2 && m.data == "echo:", "empty reply");
  w.join();
  CHECK(s.e->h()[0] == big && s.e->h()[1] == "", "handler payload");
}
CASE("C06", "an empty response is a response")
{
  arm();
  Server s; s.t.addEndpoint(std::make_shared<Ep>("void", [](const Data&, Data&) { return true; })); Raw a = dial();
  a.put(M{ 3, "void", "x" }); M m = a.expect("empty response"); CHECK(m.id == 3 && m.name == "void" && m.data == "", "empty response");
  a.put(M{ 4, "void", "" }); m = a.expect("empty response"); CHECK(m.id == 4 && m.name == "void" && m.data == "", "empty response");
}
CASE("C06", "a handler that fails ends neither the process nor the service")
{
  arm();
  Server s; std::atomic<int> k{ 0 };
  s.t.addEndpoint(std::make_shared<Ep>("picky", [&](const Data& i, Data& o) -> bool { k++; o = bytes("half"); if (i.size() == 1) throw std::runtime_error("short"); if (i.empty()) throw std::out_of_range("empty"); if (i.size() == 2) throw std::bad_alloc(); o = i; return true; }));
  Raw a = dial(), b = dial();
  for (const char* q : { "x", "", "xx" })
  {
    a.put(M{ 1, "picky", q }); a.put(M{ 2, "picky", "fine" }); b.put(M{ 3, "echo", "b" });
    M m = a.expect("answer after a failed handler"); CHECK(m.id == 2 && m.name == "picky" && m.data == "fine", "answer after a failed handler");
    m = b.expect("other connection"); CHECK(m.id == 3 && m.data == "echo:b", "other connection");
  }
  CHECK(k == 6, "%d calls", k.load());
}
CASE("C06", "responses do not leak into each other")
{
  arm();
  std::atomic<bool> go{ false };
  Server s; s.t.addEndpoint(std::make_shared<Ep>("gate", [&](const Data&, Data& o) { vh::eventually([&] { return go.load(); }); o = bytes("open"); return true; }));
  s.t.addEndpoint(std::make_shared<Ep>("append", [](const Data& i, Data& o) { o.insert(o.end(), i.begin(), i.end()); return !i.empty(); }));
  std::vector<Raw> c; for (int i = 0; i < 5; i++) { c.push_back(dial()); c[i].put(M{ 1, "echo", "hi" }); c[i].expect("reply"); }
  for (int round = 0; round < 3; round++)
  {
    go = false;
    c[round].put(M{ 9, "gate", "" }); vh::ms(20);
    // all of these wait when the next round starts
    for (int i = 0; i < 5; i++) if (i != round) c[i].put(M{ (unsigned)i, "append", i == 3 ? std::string() : "own" + std::to_string(i) });
    vh::ms(20); go = true;
    CHECK(c[round].expect("gate").data == "open", "gate");
    for (int i = 0; i < 5; i++) if (i != round && i != 3) { M m = c[i].expect("reply"); CHECK(m.id == (unsigned)i && m.data == "own" + std::to_string(i), "connection %d got id %llu '%s'", i, m.id, m.data.c_str()); }
  }
  for (auto& x : c) x.nothing("extra");
}
CASE("C06", "handler that broadcasts, endpoint replaced while serving")
{
  arm();
  Server s; TransportUnix* t = &s.t;
  s.t.addEndpoint(std::make_shared<Ep>("bc", [t](const Data& in, Data& o) { t->broadcast("news", in); o = bytes("ok"); return true; }));
  Raw a = dial(), b = dial(); b.put(M{ 1, "echo", "hi" }); b.expect("reply");
  a.put(M{ 9, "bc", "hello" });
  M m = a.expect("reply"); CHECK(m.id == 9 && m.name == "bc" && m.data == "ok", "reply %llu %s %s", m.id, m.name.c_str(), m.data.c_str());
  m = a.expect("broadcast"); CHECK(m.id == 0 && m.name == "news" && m.data == "hello", "broadcast");
  m = b.expect("broadcast"); CHECK(m.id == 0 && m.name == "news" && m.data == "hello", "broadcast");
  s.t.addEndpoint(std::make_shared<Ep>("echo", [](const Data&, Data& o) { o = bytes("second"); return true; }));
  a.put(M{ 10, "echo", "x" }); CHECK(a.expect("reply").data == "second", "the endpoint added last answers");
}

// ---------------------------------------------------------------- C07
CASE("C07", "every client gets every broadcast once and in order")
{
  arm();
  Server s; std::vector<Raw> c;
  for (int i = 0; i < 4; i++) { c.push_back(dial()); c[i].put(M{ 1, "echo", "hi" }); c[i].expect("reply"); }
  int n = vh::thorough() ? 500 : 50;
  // the server blocks on a client that does not read: read all of them at once
  std::vector<std::thread> ts;
  for (auto& r : c)
  {
    Raw* x = &r;
    ts.emplace_back([=]
    {
      for (int i = 0; i < n; i++) { M m = x->expect("broadcast"); CHECK(m.id == 0 && m.name == "e" + std::to_string(i % 3) && m.data == "b" + std::to_string(i) + std::string(i % 5 * 50, 'w'), "broadcast %d arrives as id %llu %s %s", i, m.id, m.name.c_str(), m.data.substr(0, 30).c_str()); }
      x->nothing("second copy of a broadcast");
    });
  }
  for (int i = 0; i < n; i++) { s.t.broadcast("e" + std::to_string(i % 3), bytes("b" + std::to_string(i) + std::string(i % 5 * 50, 'w'))); if (i % 10 == 9) vh::ms(12); }
  for (auto& t : ts) t.join();
  CHECK(sends_to_listener == 0, "broadcast sent to the listening socket");
  io_ok();
}
CASE("C07", "broadcasts from several threads, while requests are served")
{
  arm();
  Server s; Raw a = dial(), b = dial();
  for (Raw* x : { &a, &b }) { x->put(M{ 1, "echo", "hi" }); x->expect("reply"); }
  std::vector<std::thread> ts; int n = vh::thorough() ? 400 : 60;
  for (int k = 0; k < 4; k++) ts.emplace_back([&, k] { for (int i = 0; i < n; i++) { s.t.broadcast("t" + std::to_string(k), bytes(std::to_string(i))); if (i % 8 == 0) vh::ms(1); } });
  // the server blocks on a client that does not read: read all of them at once
  for (Raw* x : { &a, &b })
    ts.emplace_back([=]
    {
      std::map<std::string, int> next;
      for (int i = 0; i < 4 * n; i++) { M m = x->expect("broadcast"); CHECK(m.id == 0 && m.data == std::to_string(next[m.name]), "from %s: got %s, expected %d", m.name.c_str(), m.data.c_str(), next[m.name]); next[m.name]++; }
      x->nothing("extra broadcast");
    });
  for (auto& t : ts) t.join();
}
CASE("C07", "clients that come and go")
{
  arm();
  Server s; Raw a = dial(); a.put(M{ 1, "echo", "hi" }); a.expect("reply");
  s.t.broadcast("n", bytes("1")); CHECK(a.expect("broadcast").data == "1", "first");
  Raw b = dial(); b.put(M{ 1, "echo", "hi" }); b.expect("reply");
  s.t.broadcast("n", bytes("2"));
  CHECK(a.expect("broadcast").data == "2" && b.expect("broadcast").data == "2", "second");
  a.hang(); vh::ms(50);
  s.t.broadcast("n", bytes("3")); CHECK(b.expect("broadcast").data == "3", "third");
  b.nothing("extra"); b.hang(); vh::ms(50);
  s.t.broadcast("n", bytes("4")); vh::ms(60);
  Raw c = dial(); c.put(M{ 1, "echo", "hi" }); CHECK(c.expect("reply").data == "echo:hi", "a client that connects later gets an earlier broadcast");
  s.t.broadcast("n", bytes("5")); CHECK(c.expect("broadcast").data == "5", "fifth"); c.nothing("extra");
  io_ok();
}
CASE("C07", "one client that cannot be reached does not cost the others")
{
  arm();
  Server s; std::vector<Raw> c;
  for (int i = 0; i < 3; i++) { c.push_back(dial()); c[i].put(M{ 1, "echo", "hi" }); c[i].expect("reply"); }
  f_send = 1;   // the first send of the next broadcast fails
  s.t.broadcast("n", bytes("x"));
  int got = 0; for (auto& x : c) { M m; if (x.get(m, 1500)) { got++; CHECK(m.data == "x", "broadcast"); } }
  CHECK(got == 2, "%d of 2 reachable clients got the broadcast", got);
  s.t.broadcast("n", bytes("y")); for (auto& x : c) if (x.fd >= 0) { M m; CHECK(x.get(m, 3000) && m.data == "y", "next broadcast"); }
}
CASE("C07", "a client's endpoint that fails on a broadcast gets the next one")
{
  arm();
  struct Bad : Ep { std::atomic<int> k{ 0 }; Bad() : Ep("news") {} bool unsolicited(scalopus::Transport&, const Data& x, Data& r) override { k++; r = bytes("half"); if (x.size() == 1) throw std::runtime_error("no"); if (x.empty()) throw std::bad_alloc(); return false; } };
  Server s; TransportUnix c; auto e = std::make_shared<Bad>(); c.addEndpoint(e); CHECK(c.connect(getpid()), "connect");
  CHECK(value(c.request("echo", bytes("x"))) == "echo:x", "request");
  for (const char* x : { "1", "", "22", "3" }) s.t.broadcast("news", bytes(x));
  CHECK(vh::eventually([&] { return e->k == 4; }), "%d of 4 broadcasts", e->k.load());
  CHECK(value(c.request("echo", bytes("y"))) == "echo:y", "request after broadcasts");
}
CASE("C07", "clients hand broadcasts to the named endpoint")
{
  arm();
  Server s; TransportUnix c; auto e = std::make_shared<Ep>("news"), o = std::make_shared<Ep>("olds"); c.addEndpoint(e); c.addEndpoint(o); CHECK(c.connect(getpid()), "connect");
  CHECK(value(c.request("echo", bytes("x"))) == "echo:x", "request");
  auto pend = c.request("nobody", bytes("pending"));
  for (int i = 0; i < 20; i++) s.t.broadcast(i % 4 == 3 ? "olds" : "news", bytes(std::to_string(i)));
  s.t.broadcast("unknown", bytes("x"));
  CHECK(vh::eventually([&] { return e->u().size() == 15 && o->u().size() == 5; }), "endpoint got %zu and %zu broadcasts", e->u().size(), o->u().size());
  int k = 0; for (auto& x : e->u()) { if (k % 4 == 3) k++; CHECK(x == std::to_string(k), "broadcast order: %s instead of %d", x.c_str(), k); k++; }
  CHECK(e->with == &c, "handler gets another transport"); CHECK(e->h().empty(), "broadcast handled as a request");
  CHECK(pend->wait_for(std::chrono::seconds(0)) == std::future_status::timeout, "broadcast resolved a request");
  CHECK(value(c.request("echo", bytes("y"))) == "echo:y", "request after broadcasts");
}

// ---------------------------------------------------------------- C18
static void unconnected(TransportUnix& t, bool r, const char* w)
{
  CHECK(!r, "%s reports success", w);
  CHECK(!t.isConnected(), "after a failed %s the transport claims to be connected", w);
}
static void failing(std::atomic<int>& f, bool client, const char* w)
{
  std::unique_ptr<Server> s; if (client) s.reset(new Server());
  vh::ms(20);
  auto before = fds(); int th = threads();
  arm();
  for (int i = 0; i < 3; i++)
  {
    std::unique_ptr<TransportUnix> t(new TransportUnix());
    f = 1;
    bool r = client ? t->connect(getpid()) : t->serve();
    unconnected(*t, r, w);
    CHECK(threads() == th, "%s failed but a worker runs", w);
    t.reset();
    io_ok();
  }
  armed = false;
  for (int x : fds()) CHECK(before.count(x) || s, "descriptor %d leaked by a failed %s", x, w);
  CHECK(io_count() == 0, "%zu sockets leaked by a failed %s", io_count(), w);
}
CASE("C18", "socket fails in serve") { failing(f_socket, false, "serve (socket)"); }
CASE("C18", "bind fails in serve") { failing(f_bind, false, "serve (bind)"); }
CASE("C18", "listen fails in serve") { failing(f_listen, false, "serve (listen)"); }
CASE("C18", "socket fails in connect") { failing(f_socket, true, "connect (socket)"); }
CASE("C18", "connect fails in connect") { failing(f_connect, true, "connect (connect)"); }
CASE("C18", "never started")
{
  arm(); int th = threads();
  { TransportUnix t; CHECK(!t.isConnected(), "connected"); CHECK(t.pendingRequests() == 0, "pending"); }
  { TransportUnix t; t.addEndpoint(echo()); t.broadcast("x", bytes("y")); }
  CHECK(threads() == th && io_count() == 0, "left over"); io_ok();
}
CASE("C18", "connect to a process that does not serve")
{
  arm();
  TransportUnix t; unconnected(t, t.connect(getpid()), "connect to a process that does not serve");
  TransportUnix u; unconnected(u, u.connect(0), "connect to process 0");
  TransportUnix v; unconnected(v, v.connect(99999999), "connect to a process that does not exist");
  CHECK(io_count() == 0, "socket leaked"); io_ok();
}
CASE("C18", "name is taken")
{
  arm();
  auto s = std::make_shared<Server>();
  int th = threads(); size_t n = io_count();
  { TransportUnix t; unconnected(t, t.serve(), "second serve of a process"); CHECK(threads() == th, "worker"); }
  CHECK(io_count() == n, "socket leaked by a serve whose name is taken");
  Raw a = dial(); a.put(M{ 1, "echo", "x" }); CHECK(a.expect("reply").data == "echo:x", "the first server still serves");
  io_ok();
}
CASE("C18", "stopping closes every socket once and ends the worker")
{
  int th = threads(); auto before = fds();
  arm();
  for (int i = 0; i < (vh::thorough() ? 40 : 8); i++)
  {
    auto s = std::make_shared<Server>(); CHECK(s->t.isConnected(), "serving"); CHECK(threads() == th + 1, "%d workers", threads() - th);
    std::vector<std::shared_ptr<TransportUnix>> c;
    for (int k = 0; k < 3; k++) { c.push_back(std::make_shared<TransportUnix>()); CHECK(c[k]->connect(getpid()), "connect"); CHECK(c[k]->isConnected(), "connected"); CHECK(value(c[k]->request("echo", bytes("x"))) == "echo:x", "request"); }
    CHECK(threads() == th + 4, "%d workers for 4 transports", threads() - th);
    Raw r = dial(); r.put(M{ 1, "echo", "x" }); r.expect("reply");
    auto pending = c[0]->request("nobody", bytes("x"));
    if (i % 2) { c[1].reset(); CHECK(threads() == th + 3, "worker of a destroyed client lives"); c.clear(); s.reset(); }
    else { s.reset(); CHECK(r.closed(4000), "client connection survives the server"); CHECK(vh::eventually([&] { return !c[0]->isConnected(); }, 4000), "client does not notice"); c.clear(); }
    CHECK(threads() == th, "%d threads left", threads() - th);
    CHECK(io_count() == 0, "%zu sockets left open", io_count());
    if (i % 2) CHECK(r.closed(4000), "client connection survives the server");
    r.hang(); io_ok();
    CHECK(pending->wait_for(std::chrono::seconds(0)) == std::future_status::ready, "a request pending at destruction stays pending forever");
  }
  armed = false;
  for (int x : fds()) CHECK(before.count(x), "descriptor %d leaked", x);
}
CASE("C18", "sockets of clients that left are closed once")
{
  arm();
  auto s = std::make_shared<Server>();
  for (int i = 0; i < 20; i++) { Raw r = dial(); r.put(M{ 1, "echo", "x" }); r.expect("reply"); r.hang(); }
  CHECK(vh::eventually([&] { return io_count() == 1; }, 4000), "%zu sockets open", io_count());
  s.reset(); CHECK(io_count() == 0, "%zu sockets left", io_count()); io_ok();
}
CASE("C18", "client whose server disappeared is destroyed")
{
  RawServer rs; auto c = std::make_shared<TransportUnix>(); Raw r; arm(); raw_pair(rs, *c, r);
  r.hang(); CHECK(vh::eventually([&] { return !c->isConnected(); }, 4000), "lost connection is not noticed");
  int th = threads();
  c.reset(); CHECK(io_count() == 0, "%zu sockets left", io_count()); io_ok();
}
CASE("C18", "factory")
{
  arm();
  auto f = std::make_shared<scalopus::TransportUnixFactory>();
  struct Other : scalopus::Destination { operator std::string() const override { return "o"; } std::size_t hash_code() const override { return 1; } };
  CHECK(f->connect(std::make_shared<Other>()) == nullptr, "destination of another kind yields a transport");
  CHECK(f->connect(nullptr) == nullptr, "no destination yields a transport");
  CHECK(f->connect(std::make_shared<scalopus::DestinationUnix>(getpid())) == nullptr, "destination that does not serve yields a transport");
  f_bind = 1; CHECK(f->serve() == nullptr, "failed serve yields a transport");
  auto s = f->serve(); CHECK(s && s->isConnected(), "serve"); s->addEndpoint(echo());
  auto c = f->connect(s->getAddress()); CHECK(c && c->isConnected(), "connect"); CHECK(value(c->request("echo", bytes("x"))) == "echo:x", "request");
  auto d = f->connect(std::make_shared<scalopus::DestinationUnix>(getpid())); CHECK(d, "connect");
  c.reset(); d.reset(); s.reset(); CHECK(io_count() == 0, "sockets left"); io_ok();
}
