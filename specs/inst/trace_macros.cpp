// uses of the public macros the contracts speak about
#include <scalopus_tracing/trace_macro.h>
extern "C" void scv_step();
void scv_m_raii() { TRACE_SCOPE_RAII("alpha"); scv_step(); }
void scv_m_pretty() { TRACE_PRETTY_FUNCTION(); scv_step(); }
void scv_m_pair() { TRACE_SCOPE_START("beta"); scv_step(); TRACE_SCOPE_END("beta"); }
void scv_m_mark() { TRACE_MARK_EVENT_GLOBAL("gamma"); scv_step(); TRACE_MARK_EVENT_PROCESS("delta"); scv_step(); TRACE_MARK_EVENT_THREAD("epsilon"); }
void scv_m_count(int a, int b) { TRACE_COUNT_SERIES("zeta", "eta", a); scv_step(); TRACE_COUNT("theta", b); }
