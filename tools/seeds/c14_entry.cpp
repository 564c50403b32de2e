#include <cstdio>
#include <scalopus_tracing/internal/compile_time_crc.hpp>
static uint32_t ref(const char* d, unsigned n) { uint32_t c = 0xffffffffu; for (unsigned i = 0; i < n; i++) { c ^= (unsigned char)d[i]; for (int k = 0; k < 8; k++) c = c & 1 ? (c >> 1) ^ 0xedb88320u : c >> 1; } return ~c; }
int main()
{
  for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b += 5)
  {
    char x[2] = { (char)a, (char)b };
    if (scalopus::crcdetail::compute(x, 2, 0) != ref(x, 2)) { printf("checksum of %02x %02x\n", a, b); return 1; }
  }
  return 0;
}
