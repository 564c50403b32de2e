// clients of the trace configuration: sequences of calls the contracts speak about
#include <scalopus_tracing/internal/trace_configuration_raii.h>
#include <scalopus_tracing/trace_configurator.h>
using namespace scalopus;
extern "C" void scv_step();         // anything the other threads may do
extern "C" void scv_new_thread();   // from here on another thread runs
extern "C" void scv_thread_exit();  // the running thread ends
extern "C" void scv_body();         // the code inside the scope

void scv_instance(TraceConfigurator::Ptr& a, TraceConfigurator::Ptr& b, TraceConfigurator::Ptr& c)
{
  a = TraceConfigurator::getInstance();
  scv_step();
  b = TraceConfigurator::getInstance();
  scv_new_thread();
  c = TraceConfigurator::getInstance();
}

void scv_thread_state(TraceConfigurator& t, TraceConfigurator::AtomicBoolPtr& a, TraceConfigurator::AtomicBoolPtr& b)
{
  a = t.getThreadStatePtr();
  scv_step();
  b = t.getThreadStatePtr();
  scv_thread_exit();
}
void scv_thread_state2(TraceConfigurator& t, TraceConfigurator::AtomicBoolPtr& a, TraceConfigurator::AtomicBoolPtr& b)
{
  a = t.getThreadStatePtr();
  scv_new_thread();
  b = t.getThreadStatePtr();
  scv_thread_exit();
}

void scv_scope(bool process, bool state)
{
  TraceConfigurationRAII scope(process, state);
  scv_body();
}
