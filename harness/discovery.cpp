// C19: the socket table to destinations
#define VH_MAIN
#include "tu.h"
#include <cstdarg>
#include <fcntl.h>
#include <random>
#include <algorithm>
#include "scalopus_transport/transport_unix.h"
using namespace tu;
// the table is a file of the test
static std::string g_table;
static int g_opened = 0;
static const char* redirect(const char* p)
{
  if (g_table.empty() || std::string(p) != "/proc/net/unix") return p;
  g_opened++;
  return g_table.c_str();
}
extern "C" {
FILE* fopen(const char* p, const char* m) { return ((FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen"))(redirect(p), m); }
FILE* fopen64(const char* p, const char* m) { return ((FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen64"))(redirect(p), m); }
int open(const char* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return ((int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open"))(redirect(p), f, m); }
int open64(const char* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return ((int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open64"))(redirect(p), f, m); }
}
struct Table
{
  char name[64];
  Table() { strcpy(name, "/tmp/scv_table_XXXXXX"); int fd = mkstemp(name); if (fd >= 0) ::close(fd); g_table = name; }
  ~Table() { g_table.clear(); ::unlink(name); }
  void put(const std::string& s) { FILE* f = REAL(fopen)(name, "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
};
static const char* HEAD = "Num       RefCount Protocol Flags    Type St Inode Path\n";
static std::string row(const std::string& path, const char* flags = "00010000", const char* inode = " 235190", const char* type = "0001", const char* state = "01", const char* refs = "00000002")
{
  return std::string("0000000000000000: ") + refs + " 00000000 " + flags + " " + type + " " + state + " " + inode + (path.empty() ? "" : " " + path) + "\n";
}
static std::string srv(unsigned long pid) { return "@" + std::to_string(pid) + "_scalopus"; }
static std::vector<unsigned long> found()
{
  std::vector<unsigned long> r, s;
  for (auto x : TransportUnix::getTransportServers()) r.push_back(x);
  scalopus::TransportUnixFactory f;
  for (auto& d : f.discover())
  {
    auto u = std::dynamic_pointer_cast<scalopus::DestinationUnix>(d);
    CHECK(u, "a destination of another kind");
    s.push_back(u->pid_);
  }
  CHECK(r == s, "discover() returns %zu destinations, the servers are %zu, or others", s.size(), r.size());
  return r;
}
static void want(Table& t, const std::string& text, std::vector<unsigned long> pids, const char* what)
{
  t.put(text);
  auto f = found();
  std::sort(f.begin(), f.end()); std::sort(pids.begin(), pids.end());
  std::string a, b;
  for (auto x : f) a += std::to_string(x) + " ";
  for (auto x : pids) b += std::to_string(x) + " ";
  CHECK(f == pids, "%s: found '%s', expected '%s'", what, a.c_str(), b.c_str());
}
CASE("C19", "every listening server socket is listed with its process id")
{
  Table t;
  want(t, std::string(HEAD) + row(srv(16121)), { 16121 }, "one server");
  want(t, std::string(HEAD) + row(srv(1)) + row(srv(4194304)) + row(srv(2147483)) + row(srv(7)) + row(srv(10)) + row(srv(100)), { 1, 4194304, 2147483, 7, 10, 100 }, "six servers");
  want(t, row(srv(5)), { 5 }, "no heading");
  want(t, std::string(HEAD) + row(srv(12)).substr(0, row(srv(12)).size() - 1), { 12 }, "no newline at the end");
  want(t, std::string(HEAD) + row(srv(12), "00010000", "1") + row(srv(13), "00010000", "4294967295") + row(srv(14), "00010000", "    12"), { 12, 13, 14 }, "inodes of any width");
  want(t, std::string(HEAD) + row(srv(12), "00010000", "20", "0001", "01", "00000001") + row(srv(13), "00010000", "21", "0001", "01", "0000FFFF"), { 12, 13 }, "any reference count");
  want(t, std::string(HEAD) + row("@/tmp/.X11-unix/X0") + row(srv(31)) + row("") + row("/run/x.sock") + row(srv(32)) + row("") + row(srv(33)), { 31, 32, 33 }, "servers between other sockets");
  want(t, "", {}, "an empty table");
  want(t, HEAD, {}, "no sockets");
  std::string many = HEAD;
  std::vector<unsigned long> pids;
  for (int i = 0; i < 3000; i++) { if (i % 3) many += row("@" + std::string(i % 200, 'x')); else { many += row(srv(1000 + i)); pids.push_back(1000 + i); } }
  want(t, many, pids, "3000 sockets");
}
CASE("C19", "client ends and other sockets are not listed")
{
  Table t;
  const std::string s = row(srv(400));
  want(t, HEAD + s + row(srv(400), "00000000", "0", "0001", "02") + row(srv(400), "00000000", "235191", "0001", "03") + row(srv(400), "00000000", " 0", "0001", "03"), { 400 }, "both ends of connections");
  want(t, HEAD + row(srv(400), "00000000", "235191", "0001", "03") + s + row(srv(401), "00000000", "235195", "0001", "03"), { 400 }, "connections before the server");
  want(t, HEAD + row(srv(9), "00000000", "5", "0001", "01") + row(srv(9), "00000000", "5", "0002", "01") + row(srv(9), "00010001", "5"), {}, "sockets that do not listen");
  for (const char* p : { "@12_scalopu", "@12_scalopusx", "@12scalopus", "@12_Scalopus", "@_scalopus", "@x_scalopus", "@12x_scalopus", "@x12_scalopus", "@-12_scalopus", "@+12_scalopus", "@1.2_scalopus", "12_scalopus", "/run/12_scalopus", "@/12_scalopus", "@0x12_scalopus", "_scalopus", "@", "@12", "scalopus", "@@12_scalopus", "@12_scalopus_scalopus", "@12_13_scalopus", "@12__scalopus", "@99999999999_scalopus", "@123456789012345678901234567890_scalopus" })
    want(t, HEAD + row(p) + s + row(p), { 400 }, p);
}
CASE("C19", "malformed lines are not listed")
{
  Table t;
  const std::string s = row(srv(400));
  for (const char* l : { "_scalopus\n", "@12_scalopus\n", " @12_scalopus\n", "1 @12_scalopus\n", "\n", " \n", "        \n", "00010000 @12_scalopus\n", "0: 1 0 00010000 0001 01 @12_scalopus\n", "0: 00000002 00000000 00010000 0001 01\n", "_scalopus_scalopus\n", "          _scalopus\n", "0: 2 0 00010000 1 1 5 x @12_scalopus\n", "0000000000000000: 00000002 00000000 00010000 0001 01 235190 @my 12_scalopus\n", "0000000000000000: 00000002 00000000 00010000 0001 01 235190 @12 _scalopus\n", "0000000000000000: 00000002 00000000 00010000 0001 01 235190 @12_scalopus x\n" })
    want(t, HEAD + std::string(l) + s + l, { 400 }, l);
  // lines of any bytes
  std::mt19937 r(vh::seed());
  auto pick = [&](unsigned n) { return (unsigned)(r() % n); };
  static const char* frag[] = { "@", "_scalopus", "12", " ", "00010000", "0", ":", "x", "00000002", "0001", "01", "235190", "  ", "7_scalopus", "@8_scalopus", "9" };
  int rounds = vh::thorough() ? 3000 : 400;
  for (int i = 0; i < rounds; i++)
  {
    std::string l;
    for (int j = pick(14); j > 0; j--) { l += frag[pick(16)]; if (pick(2)) l += " "; if (pick(12) == 0) { char c = (char)pick(256); if (c != '\n') l += c; } }
    // is it a listening server, by the letter?
    std::vector<std::string> w;
    for (size_t a = 0; a < l.size();)
    {
      while (a < l.size() && isspace((unsigned char)l[a])) a++;
      size_t b = a;
      while (b < l.size() && !isspace((unsigned char)l[b])) b++;
      if (b > a) w.push_back(l.substr(a, b - a));
      a = b;
    }
    std::vector<unsigned long> p = { 400 };
    bool open = false;
    if (w.size() == 8 && w[3] == "00010000" && w[7].size() > 10 && w[7][0] == '@' && w[7].substr(w[7].size() - 9) == "_scalopus")
    {
      std::string d = w[7].substr(1, w[7].size() - 10);
      if (d.size() <= 10 && d.find_first_not_of("0123456789") == std::string::npos) open = true;   // left open here
    }
    if (open) continue;
    want(t, HEAD + l + "\n" + s, p, l.c_str());
  }
}
CASE("C19", "a process that serves is discovered, also while it has clients, and no longer when it stopped")
{
  auto mine = [] { scalopus::TransportUnixFactory f; int n = 0; for (auto& d : f.discover()) { auto u = std::dynamic_pointer_cast<scalopus::DestinationUnix>(d); n += u && u->pid_ == (unsigned)getpid(); } return n; };
  CHECK(mine() == 0, "discovered before it serves");
  {
    scalopus::TransportUnixFactory f;
    auto s = f.serve();
    CHECK(s, "serve");
    CHECK(mine() == 1, "a server is listed %d times", mine());
    auto c = f.connect(std::make_shared<scalopus::DestinationUnix>(getpid()));
    auto d = f.connect(std::make_shared<scalopus::DestinationUnix>(getpid()));
    CHECK(c && d, "connect");
    vh::ms(300);
    CHECK(mine() == 1, "a server with two clients is listed %d times", mine());
    c.reset(); d.reset();
    CHECK(mine() == 1, "a server is listed %d times after its clients left", mine());
  }
  CHECK(mine() == 0, "discovered after it stopped serving");
}
