// Replay harness support: each case runs in a child process of its own, so that a crash, std::terminate or hang of the
// code under test is one failed case.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <stdexcept>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/types.h>
#include <time.h>

namespace vh
{
struct Case { const char* prop; const char* name; std::function<void()> f; int limit; };
inline std::vector<Case>& cases() { static std::vector<Case> c; return c; }
struct Reg { Reg(const char* p, const char* n, std::function<void()> f, int limit = 20) { cases().push_back({ p, n, f, limit }); } };
struct Fail : std::exception { std::string m; Fail(std::string s) : m(s) {} const char* what() const noexcept override { return m.c_str(); } };
inline int& out_fd() { static int f = -1; return f; }
inline void fail(const std::string& m)
{
  // report directly: the caller may be inside code that swallows exceptions or inside another thread
  std::string s = m.substr(0, 600);
  for (auto& c : s) if (c == '\n') c = ' ';
  s += "\n";
  ssize_t r = ::write(out_fd(), s.data(), s.size());
  (void)r;
  _exit(1);
}
inline bool thorough() { const char* t = getenv("VH_TIER"); return t && std::string(t) == "thorough"; }
inline unsigned long seed() { const char* t = getenv("VH_SEED"); return t ? strtoul(t, 0, 10) : 1; }
// value of a symbol in the verifier's counterexample, if it gave one
inline bool model(const std::string& key, long long& v)
{
  const char* t = getenv("VH_MODEL");
  if (!t) return false;
  std::string s = std::string(";") + t;
  auto p = s.find(";" + key + " = ");
  if (p == std::string::npos) return false;
  v = atoll(s.c_str() + p + key.size() + 4);
  return true;
}
struct Rng { unsigned long long s; Rng(unsigned long long x) : s(x * 2654435761ULL + 88172645463325252ULL) {}
  unsigned long long next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
  unsigned long long below(unsigned long long n) { return n ? next() % n : 0; } };
inline void ms(int n) { struct timespec t { n / 1000, (n % 1000) * 1000000L }; nanosleep(&t, nullptr); }
// waits until f() holds; false after the limit
inline bool eventually(const std::function<bool()>& f, int limit_ms = 8000)
{
  for (int i = 0; i < limit_ms; i++) { if (f()) return true; ms(1); }
  return f();
}
}
#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
#define CASE(props, name) \
  static void VH_CAT(vh_f_, __LINE__)(); \
  static vh::Reg VH_CAT(vh_r_, __LINE__)(props, name, VH_CAT(vh_f_, __LINE__)); \
  static void VH_CAT(vh_f_, __LINE__)()
#define CHECK(cond, ...) do { if (!(cond)) { char vh_b[512]; snprintf(vh_b, sizeof vh_b, __VA_ARGS__); vh::fail(std::string("[" #cond "] ") + vh_b); } } while (0)

#ifdef VH_MAIN
int main()
{
  signal(SIGPIPE, SIG_DFL);
  const char* pe = getenv("VH_PROP");
  std::string prop = pe ? pe : "";
  int bad = 0;
  setvbuf(stdout, nullptr, _IONBF, 0);
  for (auto& c : vh::cases())
  {
    if (!prop.empty() && (std::string(" ") + c.prop + " ").find(" " + prop + " ") == std::string::npos) continue;
    printf("CASE %s\n", c.name);
    int p[2];
    if (pipe(p)) return 2;
    pid_t pid = fork();
    if (pid == 0)
    {
      close(p[0]);
      setpgid(0, 0);
      vh::out_fd() = p[1];
      try { c.f(); }
      catch (const std::exception& e) { vh::fail(std::string("unexpected exception: ") + e.what()); }
      _exit(0);
    }
    close(p[1]);
    int st = 0;
    bool timeout = false;
    int limit = c.limit * 1000;
    for (int i = 0;; i++)
    {
      pid_t r = waitpid(pid, &st, WNOHANG);
      if (r == pid) break;
      if (i > limit) { timeout = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
      vh::ms(1);
    }
    kill(-pid, SIGKILL);
    char buf[1024]; ssize_t n = 0; std::string m;
    while ((n = read(p[0], buf, sizeof buf)) > 0) m.append(buf, n);
    close(p[0]);
    while (!m.empty() && m.back() == '\n') m.pop_back();
    if (timeout) { printf("FAIL %s: does not finish within %d s\n", c.name, c.limit); bad = 1; }
    else if (WIFSIGNALED(st)) { printf("FAIL %s: killed by signal %d (%s)\n", c.name, WTERMSIG(st), strsignal(WTERMSIG(st))); bad = 1; }
    else if (!m.empty()) { printf("FAIL %s: %s\n", c.name, m.c_str()); bad = 1; }
    else if (WEXITSTATUS(st)) { printf("FAIL %s: exit status %d\n", c.name, WEXITSTATUS(st)); bad = 1; }
  }
  return bad;
}
#endif
