// clients of the compile-time checksum; the checksum itself and the macros are /repo's
#include <scalopus_tracing/internal/compile_time_crc.hpp>
#include <scalopus_tracing/internal/trace_macro.h>
unsigned scv_crc(const char* data, unsigned len, unsigned crc) { return scalopus::crcdetail::compute(data, len, crc); }
unsigned scv_crc0(const char* data, unsigned len) { return scalopus::crcdetail::compute(data, len); }
unsigned scv_lit0() { return CRC32_STR(""); }
unsigned scv_lit1() { return CRC32_STR("123456789"); }
unsigned scv_lit2() { return CRC32_STR("a\0b"); }
unsigned scv_lit3() { return CRC32_STR("\x80\xff\x7f\x01 high bytes, and a text that is longer than the table has entries ........................................................................................................................................................................................................................................"); }
#line 77 "scv_file_name"
unsigned scv_id_line() { return SCALOPUS_TRACKED_TRACE_ID_CREATOR(); }
unsigned scv_id_str() { return SCALOPUS_TRACKED_TRACE_ID_STRING("some name"); }
