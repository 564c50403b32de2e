// uses the inline functions of the header, for them to be compiled
#include "scalopus_tracing/babeltrace_parser.h"
void scv_use(scalopus::BabeltraceParser::EventCallback& c, const scalopus::CTFEvent& e)
{
  c.disable();
  c.call(e);
}
