// Stand-in for lttng-ust's macros: an event becomes calls of two recording functions, with the event's name and the
// fields its definition lists. What is dropped: whether a tracing session currently records the event.
#pragma once
#include <cstdint>
#include <type_traits>
extern "C" void scv_event(const char* provider, const char* name);
extern "C" void scv_field(const char* name, long long value, unsigned long long size, bool is_signed);
extern "C" void scv_event_end();
#define TP_ARGS(...) __VA_ARGS__
#define TP_FIELDS(...) __VA_ARGS__
#define SCV_TP_CNT_(_1, _2, _3, _4, _5, _6, _7, _8, N, ...) N
#define SCV_TP_CNT(...) SCV_TP_CNT_(__VA_ARGS__, 8, 7, 6, 5, 4, 3, 2, 1, 0)
#define SCV_TP_CAT_(a, b) a##b
#define SCV_TP_CAT(a, b) SCV_TP_CAT_(a, b)
#define SCV_TP_P2(a, b) a b
#define SCV_TP_P4(a, b, ...) a b, SCV_TP_P2(__VA_ARGS__)
#define SCV_TP_P6(a, b, ...) a b, SCV_TP_P4(__VA_ARGS__)
#define SCV_TP_P8(a, b, ...) a b, SCV_TP_P6(__VA_ARGS__)
#define SCV_TP_N2(a, b) b
#define SCV_TP_N4(a, b, ...) b, SCV_TP_N2(__VA_ARGS__)
#define SCV_TP_N6(a, b, ...) b, SCV_TP_N4(__VA_ARGS__)
#define SCV_TP_N8(a, b, ...) b, SCV_TP_N6(__VA_ARGS__)
#define SCV_TP_PARAMS(...) SCV_TP_CAT(SCV_TP_P, SCV_TP_CNT(__VA_ARGS__))(__VA_ARGS__)
#define SCV_TP_NAMES(...) SCV_TP_CAT(SCV_TP_N, SCV_TP_CNT(__VA_ARGS__))(__VA_ARGS__)
#define ctf_integer(type, name, expr) scv_field(#name, static_cast<long long>(static_cast<type>(expr)), sizeof(type), std::is_signed<type>::value);
#define ctf_integer_hex(type, name, expr) ctf_integer(type, name, expr)
#define TRACEPOINT_EVENT_CLASS(provider, cls, args, fields) \
  static inline void scv_tpc_##provider##_##cls(SCV_TP_PARAMS(args)) { fields }
#define TRACEPOINT_EVENT_INSTANCE(provider, cls, name, args) \
  static inline void scv_tp_##provider##_##name(SCV_TP_PARAMS(args)) { scv_event(#provider, #name); scv_tpc_##provider##_##cls(SCV_TP_NAMES(args)); scv_event_end(); }
#define TRACEPOINT_EVENT(provider, name, args, fields) \
  static inline void scv_tp_##provider##_##name(SCV_TP_PARAMS(args)) { scv_event(#provider, #name); fields scv_event_end(); }
#define TRACEPOINT_LOGLEVEL(provider, name, level)
#define tracepoint(provider, name, ...) scv_tp_##provider##_##name(__VA_ARGS__)
#define do_tracepoint(provider, name, ...) scv_tp_##provider##_##name(__VA_ARGS__)
#define tracepoint_enabled(provider, name) 1
