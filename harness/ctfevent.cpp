// C15: trace lines to events
#define VH_MAIN
#include "h.h"
#include <cmath>
#include <random>
#include <memory>
#include "scalopus_tracing/ctfevent.h"
using scalopus::CTFEvent;
using Map = std::map<std::string, unsigned long long int>;
static const size_t npos = std::string::npos;
static bool number(const std::string& s, unsigned long long& v)
{
  try { v = std::stoull(s); return true; } catch (const std::logic_error&) { return false; }
}
static bool plain(const std::string& s)
{
  if (s.empty()) return false;
  for (size_t i = 0; i < s.size(); i++) if (!((s[i] >= '0' && s[i] <= '9') || (i == 0 && s[i] == '-' && s.size() > 1))) return false;
  return true;
}
static std::string show(const std::string& s) { std::string r; for (unsigned char c : s) { if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += c; } return r.substr(0, 200); }
// the entries of the text of a group, against the map; all: numeric entries must be in
static void entries(const std::string& line, const std::string& text, const Map& m, bool all, const char* which)
{
  std::map<std::string, std::vector<unsigned long long>> have;
  for (size_t a = 0; a <= text.size();)
  {
    size_t b = text.find(", ", a);
    std::string e = text.substr(a, b == npos ? npos : b - a);
    size_t q = e.find(" = ");
    unsigned long long v;
    if (q != npos && number(e.substr(q + 3), v))
    {
      have[e.substr(0, q)].push_back(v);
      if (all && plain(e.substr(q + 3))) CHECK(m.count(e.substr(0, q)), "%s of '%s' lacks '%s'", which, show(line).c_str(), show(e).c_str());
    }
    if (b == npos) break;
    a = b + 2;
  }
  for (auto& kv : m)
  {
    bool ok = false;
    for (auto v : have[kv.first]) ok = ok || v == kv.second;
    CHECK(ok, "%s of '%s' has '%s' = %llu, which is not an entry of it", which, show(line).c_str(), show(kv.first).c_str(), kv.second);
  }
}
static void line(const std::string& s)
{
  // memory that ends with the text, for the address sanitizer
  std::string exact(s.data(), s.size());
  exact.shrink_to_fit();
  std::unique_ptr<CTFEvent> p;
  try { p.reset(new CTFEvent(exact)); }
  catch (const std::exception& e) { vh::fail("'" + show(s) + "' throws " + e.what()); }
  const CTFEvent& e = *p;
  CHECK(e.line() == s, "'%s' is not kept", show(s).c_str());
  size_t p0 = s.find('['), p1 = p0 == npos ? npos : s.find(']', p0);
  bool has = p1 != npos, ok = false;
  double t = 0;
  if (has) try { t = std::stod(s.substr(p0 + 1, p1 - p0 - 1)); ok = true; } catch (const std::logic_error&) { t = 0; }
  CHECK(e.time() == t || (std::isnan(t) && std::isnan(e.time())), "'%s' has time %.17g instead of %.17g", show(s).c_str(), e.time(), t);
  auto find = [&](char c, size_t from) { return from == npos ? npos : s.find(c, from); };
  size_t s1 = has ? find(' ', p1) : npos, s2 = s1 == npos ? npos : find(' ', s1 + 1), s3 = s2 == npos ? npos : find(' ', s2 + 1);
  size_t end = s3;
  bool colon = s3 != npos && s3 > s2 + 1 && s[s3 - 1] == ':';
  if (colon) end--;
  size_t c = s3 == npos ? npos : find(':', s2 + 1);
  bool exact_ok = s3 != npos && c < end;
  std::string dom = exact_ok ? s.substr(s2 + 1, c - s2 - 1) : "", name = exact_ok ? s.substr(c + 1, end - c - 1) : "";
  bool wf = p0 == 0 && ok && s1 == p1 + 1 && s2 > s1 + 1 && exact_ok && colon;
  size_t b[3], q[3];
  size_t pos = s3;
  for (int g = 0; g < 3; g++)
  {
    b[g] = find('{', pos);
    q[g] = b[g] == npos ? npos : find('}', b[g] + 1);
    pos = q[g];
    wf = wf && pos != npos && s[b[g] + 1] == ' ' && s[q[g] - 1] == ' ';
  }
  CHECK((e.domain() == dom && e.name() == name) || (!wf && e.domain().empty() && e.name().empty()), "'%s' has domain '%s' name '%s' instead of '%s' '%s'", show(s).c_str(), show(e.domain()).c_str(), show(e.name()).c_str(), dom.c_str(), name.c_str());
  const Map* m[3] = { nullptr, nullptr, nullptr };
  Map a = e.streamContext(), d = e.eventContext(), f = e.eventData();
  m[0] = &a; m[1] = &d; m[2] = &f;
  const char* which[3] = { "the stream context", "the event context", "the data" };
  for (int g = 0; g < 3; g++)
  {
    if (q[g] == npos || q[g] - b[g] < 4) CHECK(m[g]->empty(), "%s of '%s' is not empty", which[g], show(s).c_str());
    else if (s[b[g] + 1] == ' ' && s[q[g] - 1] == ' ') entries(s, s.substr(b[g] + 2, q[g] - b[g] - 3), *m[g], wf, which[g]);
  }
  if (d.count("vpid")) CHECK(e.pid() == d["vpid"], "pid of '%s'", show(s).c_str());
  if (d.count("pthread_id")) CHECK(e.tid() == d["pthread_id"], "tid of '%s'", show(s).c_str());
}
static std::string value(std::mt19937_64& g)
{
  switch (g() % 9)
  {
    case 0: return "\"text\"";
    case 1: return "18446744073709551615";
    case 2: return "18446744073709551616";
    case 3: return "-" + std::to_string(g() % 1000);
    case 4: return "99999999999999999999999";
    case 5: return g() % 2 ? "0" : "007";
    case 6: return g() % 2 ? "" : "( \"A\" : container = 3 )";
    default: return std::to_string(g() >> (g() % 64));
  }
}
static std::string group(std::mt19937_64& g)
{
  static const char* keys[] = { "cpu_id", "vpid", "pthread_id", "id", "value", "k", "" };
  std::string r = "{ ";
  int n = g() % 4;
  for (int i = 0; i < n; i++)
  {
    if (i) r += ", ";
    r += keys[g() % 7];
    if (g() % 12) r += " = ";
    r += value(g);
  }
  return r + (n ? " }" : "}");
}
static std::string well_formed(std::mt19937_64& g)
{
  char t[64];
  snprintf(t, sizeof t, "[%llu.%09llu]", (unsigned long long)(g() % 3000000000ull), (unsigned long long)(g() % 1000000000ull));
  static const char* hosts[] = { "eagle", "h", "a:b", "host-1.local", "{x}" };
  static const char* points[] = { "scalopus_scope_id:entry", "scalopus_scope_id:exit", "scalopus_mark_event_id:mark_event", "lttng_ust:x:y", "a:b", ":n", "d:" };
  return std::string(t) + " " + hosts[g() % 5] + " " + points[g() % 7] + ": " + group(g) + ", " + group(g) + ", " + group(g) + (g() % 3 ? "\n" : "");
}
CASE("C15", "well-formed lines")
{
  line("[1544361620.739021131] eagle scalopus_scope_id:exit: { cpu_id = 2 }, { vpid = 14897, pthread_id = 139688084124608 }, { id = 4144779573 }");
  line("[1.5] h d:n: { cpu_id = 1 }, { vpid = 2, pthread_id = 3 }, { id = 4, value = 18446744073709551615 }");
  line("[1.5] h d:n: { }, { }, { }");
  line("[1.5] h d:n: { a = 1 }, { }, { b = 2 }");
  std::mt19937_64 g(vh::seed());
  for (int i = 0; i < (vh::thorough() ? 200000 : 20000); i++) line(well_formed(g));
}
CASE("C15", "parts that are missing or empty")
{
  for (const char* s : { "", "\n", " ", "[", "]", "[]", "][", "[1", "1]", "[1]", "[x]", "[1e999]", "[-1e-999]", "[] h d:n: { a = 1 }, { a = 1 }, { a = 1 }", "[99999999999999999999.0] h d:n: { a = 1 }, { b = 2 }, { c = 3 }", "[1e400] h d:n: { a = 1 }, { b = 2 }, { c = 3 }",
                         "[1.0] h", "[1.0] h ", "[1.0] h d", "[1.0] h d:n", "[1.0] h d:n:", "[1.0] h d:n: ", "[1.0] h  { a = 1 }, { b = 2 }, { c = 3 }", "[1.0]  d:n: { a = 1 }, { b = 2 }, { c = 3 }", "[1.0] h : { a = 1 }, { b = 2 }, { c = 3 }", "[1.0] h :: { a = 1 }, { b = 2 }, { c = 3 }",
                         "[1.0] h dn { a : 1 }, { b = 2 }, { c = 3 }", "[1.0] h d:n: {}, { b = 2 }, { c = 3 }", "[1.0] h d:n: { a = 1 }, {}, { c = 3 }", "[1.0] h d:n: {}, {}, {}", "[1.0] h d:n: { a = 1 }, { b = 2 }, {}", "[1.0] h d:n: { a = 1 }, { b = 2 }", "[1.0] h d:n: { a = 1 }, { b = 2 }, {",
                         "[1.0] h d:n: { a = 1 }, { b = 2 }, { c = 3", "[1.0] h d:n: { a = 1, { b = 2 }, { c = 3 }", "[1.0] h d:n: a = 1 }, { b = 2 }, { c = 3 }", "[1.0] h d:n: { a = 1 } { b = 2 } { c = 3 }", "[1.0] h d:n: { = 1 }, { b = }, { c = x }", "[1.0] h d:n: { , }, { , , }, { ,  = 1, }",
                         "[1.0] h d:n: { a = 1, }, { , b = 2 }, { c = 1 = 2 }", "[1.0] h d:n: { a = 99999999999999999999 }, { b = -1 }, { c = +1 }", "[1.0] h d:n: { a = 1 }, { b = 2 }, { c = 99999999999999999999, d = 4 }", "x [1.0] h d:n: { a = 1 }, { b = 2 }, { c = 3 }",
                         "[1.0]] h d:n: { a = 1 }, { b = 2 }, { c = 3 }", "] [1.0] h d:n: { a = 1 }, { b = 2 }, { c = 3 }", "[[1.0]] h d:n: { a = 1 }, { b = 2 }, { c = 3 }", "[1.0] h d:n: { a = 1}, {b = 2 }, {c = 3}", "[1.0] h d:n: { }{ }{ }", "{ a = 1 } [1.0] h d:n:", "[nan] h d:n: { }, { }, { }", "[inf] h d:n: { }, { }, { }" })
    line(s);
  std::string z("[1.0] h d:n: { a = 1 }, { b\0b = 2 }, { c = 3 }", 46);
  line(z);
  line(std::string(5, '\0'));
  line(std::string(100000, '{'));
  line(std::string(100000, ' '));
  line("[" + std::string(5000, '9') + "] h d:n: { a = 1 }, { b = 2 }, { c = 3 }");
}
CASE("C15", "every beginning and end of a line")
{
  std::string s = "[1544361620.739021131] eagle scalopus_scope_id:exit: { cpu_id = 2 }, { vpid = 14897, pthread_id = 139688084124608 }, { id = 4144779573, value = 3 }\n";
  for (size_t i = 0; i <= s.size(); i++) { line(s.substr(0, i)); line(s.substr(i)); }
  for (size_t i = 0; i < s.size(); i++) { line(s.substr(0, i) + s.substr(i + 1)); for (char c : { ' ', ':', '{', '}', ',', '=', '[', ']', '\0', '9', '-', '\n', '\x80' }) { line(s.substr(0, i) + c + s.substr(i + 1)); line(s.substr(0, i) + c + s.substr(i)); } }
}
CASE("C15", "altered lines and random bytes")
{
  std::mt19937_64 g(vh::seed() + 7);
  static const char special[] = " :{},=[]\n\0-0919.eE+x\xff";
  for (int i = 0; i < (vh::thorough() ? 300000 : 40000); i++)
  {
    std::string s = well_formed(g);
    int n = 1 + g() % 4;
    for (int k = 0; k < n && !s.empty(); k++)
    {
      size_t a = g() % s.size(), l = 1 + g() % 6;
      switch (g() % 5)
      {
        case 0: s.erase(a, l); break;
        case 1: s.insert(a, 1, special[g() % (sizeof special - 1)]); break;
        case 2: s[a] = special[g() % (sizeof special - 1)]; break;
        case 3: s.insert(a, s.substr(g() % s.size(), g() % 20)); break;
        default: s.resize(a); break;
      }
    }
    line(s);
  }
  for (int i = 0; i < (vh::thorough() ? 300000 : 40000); i++)
  {
    std::string s;
    int n = g() % 40;
    for (int k = 0; k < n; k++) s += special[g() % (sizeof special - 1)];
    line(s);
    line("[1.0] h d:n: " + s);
  }
}
