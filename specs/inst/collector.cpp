// clients of the native collector: sequences of calls the contracts speak about
#include "tracepoint_collector_native.h"
using namespace scalopus;
using Ptr = tracepoint_collector_types::ScopeBufferPtr;
extern "C" void scv_step();         // anything the other threads may do
extern "C" void scv_new_thread();   // from here on another thread runs
extern "C" void scv_thread_exit();  // the running thread ends

void scv_instance(TracePointCollectorNative::Ptr& a, TracePointCollectorNative::Ptr& b, TracePointCollectorNative::Ptr& c)
{
  a = TracePointCollectorNative::getInstance();
  scv_step();
  b = TracePointCollectorNative::getInstance();
  scv_new_thread();
  c = TracePointCollectorNative::getInstance();
}
void scv_buffer(TracePointCollectorNative& t, Ptr& a, Ptr& b)
{
  a = t.getBuffer();
  scv_step();
  b = t.getBuffer();
  scv_thread_exit();
}
void scv_buffer2(TracePointCollectorNative& t, Ptr& a, Ptr& b)
{
  a = t.getBuffer();
  scv_new_thread();
  b = t.getBuffer();
  scv_thread_exit();
}
void scv_buffer3(TracePointCollectorNative& t, Ptr& a, Ptr& b)
{
  a = t.getBuffer();
  scv_thread_exit();
  scv_new_thread();
  b = t.getBuffer();
  scv_thread_exit();
}
