// C14: the checksum against a bitwise reference
#define VH_MAIN
#include "h.h"
#include <random>
#include <scalopus_tracing/internal/compile_time_crc.hpp>
#include <scalopus_tracing/internal/trace_macro.h>
using scalopus::crcdetail::compute;
static uint32_t crc_ref(const std::string& s, uint32_t crc = 0)
{
  crc = ~crc;
  for (unsigned char c : s) { crc ^= c; for (int i = 0; i < 8; i++) crc = crc & 1 ? (crc >> 1) ^ 0xEDB88320u : crc >> 1; }
  return ~crc;
}
static uint32_t of(const std::string& s, uint32_t crc = 0) { return compute(s.data(), (uint32_t)s.size(), crc); }
CASE("C14", "single bytes and the empty text")
{
  CHECK(compute("", 0) == 0, "empty text");
  for (int i = 0; i < 256; i++) { std::string s(1, (char)i); CHECK(of(s) == crc_ref(s), "byte 0x%02x: %08x instead of %08x", i, of(s), crc_ref(s)); }
}
CASE("C14", "two bytes")
{
  for (int i = 0; i < 65536; i++) { std::string s{ (char)i, (char)(i >> 8) }; CHECK(of(s) == crc_ref(s), "bytes %04x: %08x instead of %08x", i, of(s), crc_ref(s)); }
}
CASE("C14", "texts of every length, in pieces")
{
  std::mt19937 g(vh::seed());
  for (int n = 0; n < (vh::thorough() ? 3000 : 700); n++)
  {
    std::string s; for (int i = 0; i < n; i++) s.push_back((char)g());
    CHECK(of(s) == crc_ref(s), "length %d: %08x instead of %08x", n, of(s), crc_ref(s));
    size_t a = g() % (n + 1), b = a + g() % (n + 1 - a);
    CHECK(of(s.substr(b), of(s.substr(a, b - a), of(s.substr(0, a)))) == crc_ref(s), "length %d in pieces %zu, %zu, %zu", n, a, b - a, n - b);
  }
}
CASE("C14", "large texts")
{
  for (size_t n : { 65535u, 65536u, 65537u, 1u << 20, (1u << 24) + 3 }) { std::string s(n, 'x'); s[n / 2] = '\0'; s[n - 1] = '\xf0'; CHECK(of(s) == crc_ref(s), "length %zu", n); }
}
CASE("C14", "macros")
{
  CHECK(CRC32_STR("") == 0, "empty text");
  CHECK(CRC32_STR("123456789") == 0xCBF43926u, "check value %08x", CRC32_STR("123456789"));
  CHECK(CRC32_STR("a\0b") == crc_ref(std::string("a\0b", 3)), "embedded zero");
  CHECK((SCALOPUS_TRACKED_TRACE_ID_STRING("nm")) == crc_ref(__FILE__) + crc_ref("nm"), "named id");
  CHECK((SCALOPUS_TRACKED_TRACE_ID_CREATOR()) == crc_ref(__FILE__) + __LINE__, "id");
}
