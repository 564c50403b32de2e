F = 'scalopus_tracing/include/scalopus_tracing/internal/compile_time_crc.hpp'
M_ = 'scalopus_tracing/include/scalopus_tracing/internal/trace_macro.h'
P = ['C14']
def b(name, *ed): return dict(name=name, props=P, kind='bug', edits=list(ed))
def s(name, *ed): return dict(name=name, props=P, kind='same', edits=list(ed))
LOOP = '''  for (uint32_t i = 0; i < len; i++)
  {
    crc = table[static_cast<unsigned char>(*data) ^ (crc & 0xFF)] ^ (crc >> 8);
    data++;
  }
'''
ST = "table[static_cast<unsigned char>(*data) ^ (crc & 0xFF)] ^ (crc >> 8)"
M = [
 b('table entry', (F, '0x59B33D17U', '0x59B33D16U')),
 b('swap entries', (F, '0xBAD03605U, 0xCDD70693U', '0xCDD70693U, 0xBAD03605U')),
 b('stops at nul', (F, 'i < len; i++', 'i < len && *data; i++')),
 b('length 16 bit', (F, 'for (uint32_t i = 0; i < len; i++)', 'for (uint32_t i = 0; i < (len & 0xFFFF); i++)')),
 b('no init when continued', (F, '  crc = crc ^ 0xFFFFFFFFU;\n  for', '  crc = crc ? crc : 0xFFFFFFFFU;\n  for')),
 b('macro counts nul', (F, 'sizeof(A) - 1', 'sizeof(A)')),
 b('7 bit', (F, 'static_cast<unsigned char>(*data) ^ (crc & 0xFF)', '(static_cast<unsigned char>(*data) & 0x7F) ^ (crc & 0xFF)')),
 b('capped length', (F, 'i < len; i++', 'i < len && i < 4096; i++')),
 b('last byte short', (F, 'crc >> 8);\n', 'crc >> 8);\n    if (len > 300 && i + 2 == len) break;\n')),
 b('default crc', (F, 'uint32_t crc = 0)', 'uint32_t crc = 1)')),
 b('id xor', (M_, '(CRC32_STR(__FILE__) + CRC32_STR(s))', '(CRC32_STR(__FILE__) ^ CRC32_STR(s))')),
 s('R while', (F, LOOP, '  while (len != 0)\n  {\n    crc = ' + ST + ';\n    data++;\n    len--;\n  }\n')),
 s('R index', (F, LOOP, '  for (uint32_t i = 0; i < len; ++i)\n  {\n    const uint8_t idx = static_cast<uint8_t>(static_cast<unsigned char>(data[i]) ^ crc);\n    crc = (crc >> 8) ^ table[idx];\n  }\n')),
 s('R end pointer', (F, LOOP, '  for (const char* end = data + len; data != end; ++data)\n  {\n    crc = ' + ST + ';\n  }\n')),
 s('R not', (F, 'crc = crc ^ 0xFFFFFFFFU;\n  for', 'crc = ~crc;\n  for')),
 s('R helper', (F, 'constexpr uint32_t compute(', 'constexpr uint32_t step(uint32_t crc, char c)\n{\n  return table[(static_cast<unsigned char>(c) ^ crc) & 0xFFU] ^ (crc >> 8);\n}\n\nconstexpr uint32_t compute('), (F, ST, 'step(crc, *data)')),
 s('R complemented', (F, '  crc = crc ^ 0xFFFFFFFFU;\n  for', '  for'), (F, 'crc = ' + ST, 'crc = ~(table[static_cast<unsigned char>(*data) ^ (~crc & 0xFF)] ^ (~crc >> 8))'), (F, '  crc = crc ^ 0xFFFFFFFFU;\n  return', '  return')),
 s('R bitwise', (F, '    crc = ' + ST + ';\n', '    crc ^= static_cast<unsigned char>(*data);\n    for (int bit = 0; bit < 8; bit++)\n    {\n      crc = (crc & 1) ? (crc >> 1) ^ 0xEDB88320U : crc >> 1;\n    }\n')),
]
