// clients of the tracepoints: sequences of calls the contracts speak about
#include <scalopus_tracing/internal/count_tracepoint.h>
#include <scalopus_tracing/internal/marker_tracepoint.h>
#include <scalopus_tracing/internal/scope_trace_raii.h>
#include <scalopus_tracing/internal/scope_tracepoint.h>
using namespace scalopus;
extern "C" void scv_step();         // anything the other threads may do: the flags may have other values now
extern "C" void scv_new_thread();   // from here on another thread runs
#ifndef SCV_RAII
void scv_entry(unsigned a, unsigned b, unsigned c) { scope_entry(a); scv_step(); scope_entry(b); scv_new_thread(); scope_entry(c); }
void scv_exit(unsigned a, unsigned b, unsigned c) { scope_exit(a); scv_step(); scope_exit(b); scv_new_thread(); scope_exit(c); }
void scv_mark(unsigned a, MarkLevel x, unsigned b, MarkLevel y, unsigned c, MarkLevel z) { mark_event(a, x); scv_step(); mark_event(b, y); scv_new_thread(); mark_event(c, z); }
void scv_count(unsigned a, std::int64_t x, unsigned b, std::int64_t y, unsigned c, std::int64_t z) { count_event(a, x); scv_step(); count_event(b, y); scv_new_thread(); count_event(c, z); }
#endif
void scv_scope(unsigned a) { TraceRAII r(a); scv_step(); }
