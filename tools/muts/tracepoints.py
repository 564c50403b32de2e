L = 'scalopus_tracing/src/lttng/lttng_tracepoint.cpp'
N = 'scalopus_tracing/src/native/native_tracepoint.cpp'
R = 'scalopus_tracing/src/scope_trace_raii.cpp'
SL = 'scalopus_tracing/src/lttng/scope_tracepoint_lttng.cpp'
MAC = 'scalopus_tracing/include/scalopus_tracing/trace_macro.h'
P = ['C11']
def b(name, *ed): return dict(name=name, props=P, kind='bug', edits=list(ed))
def s(name, *ed): return dict(name=name, props=P, kind='same', edits=list(ed))
G = '  if (!process_state->load() || !thread_state->load())\n  {\n    return;\n  }\n'
def at(f, fn, old, new):
    """replace old in the function fn of file f"""
    t = open('/repo/' + f).read()
    i = t.index('void ' + fn + '(')
    j = t.find('\nvoid ', i + 5)
    body = t[i:j]
    assert old in body, (f, fn, old)
    return (f, body, body.replace(old, new, 1))
M = [
 b('entry and', at(L, 'scope_entry', '||', '&&')),
 b('exit ignores thread', at(L, 'scope_exit', ' || !thread_state->load()', '')),
 b('mark ignores process', at(L, 'mark_event', '!process_state->load() || ', '')),
 b('count thread static', at(L, 'count_event', 'thread_local auto thread_state', 'static auto thread_state')),
 b('exit static', at(L, 'scope_exit', 'thread_local auto thread_state', 'static auto thread_state')),
 b('native static buffer', at(N, 'scope_entry', 'thread_local auto buffer =', 'static auto buffer =')),
 b('native exit wrong kind', at(N, 'scope_exit', '::SCOPE_EXIT', '::SCOPE_ENTRY')),
 b('native mark swap', at(N, 'mark_event', '::MARK_PROCESS', '::MARK_THREAD')),
 b('lttng mark fallthrough', at(L, 'mark_event', '      tracepoint(scalopus_scope_id, mark_event_process, id);\n      break;', '      tracepoint(scalopus_scope_id, mark_event_process, id);')),
 b('cached process bool', at(L, 'count_event', 'static auto process_state = configurator_ptr->getProcessStatePtr();', 'static const std::atomic_bool process_copy{ configurator_ptr->getProcessStatePtr()->load() };\n  static const auto* process_state = &process_copy;')),
 b('id truncated', at(L, 'scope_exit', 'tracepoint(scalopus_scope_id, scope_exit, id)', 'tracepoint(scalopus_scope_id, scope_exit, id & 0x7fffffff)')),
 b('count truncated', at(L, 'count_event', ', id, value)', ', id, static_cast<int>(value))')),
 b('raii exit id', (R, '  scope_exit(id_);', '  scope_exit(id_ ? id_ : 1);')),
 b('raii exit only if nonzero', (R, '  scope_exit(id_);', '  if (id_ != 0)\n    scope_exit(id_);')),
 b('fwd mark level', (SL, 'lttng::mark_event(id, mark_level);', 'lttng::mark_event(id, MarkLevel::PROCESS);')),
 s('R helper', (L, 'void scope_entry(', 'static bool on(const std::atomic_bool& p, const std::atomic_bool& t)\n{\n  return p.load() && t.load();\n}\n\nvoid scope_entry('), (L, '  if (!process_state->load() || !thread_state->load())', '  if (!on(*process_state, *thread_state))')),
 s('R positive if', at(L, 'scope_exit', G + '  tracepoint(scalopus_scope_id, scope_exit, id);\n', '  if (process_state->load() && thread_state->load())\n  {\n    tracepoint(scalopus_scope_id, scope_exit, id);\n  }\n')),
 s('R order of loads', at(L, 'count_event', '!process_state->load() || !thread_state->load()', '!thread_state->load() || !process_state->load()')),
 s('R if chain', at(L, 'mark_event', 'switch (mark_level)', 'if (mark_level == MarkLevel::GLOBAL)\n  {\n    tracepoint(scalopus_scope_id, mark_event_global, id);\n    return;\n  }\n  switch (mark_level)')),
 s('R event local', at(N, 'scope_entry', 'buffer->push(tracepoint_collector_types::StaticTraceEvent{ nativeGetChrono(), id,\n                                                             TracePointCollectorNative::SCOPE_ENTRY, nullptr });', 'tracepoint_collector_types::StaticTraceEvent event{ nativeGetChrono(), id, TracePointCollectorNative::SCOPE_ENTRY, nullptr };\n  buffer->push(std::move(event));')),
 s('R no statics', at(L, 'scope_entry', '  static auto configurator_ptr = TraceConfigurator::getInstance();\n  static auto process_state = configurator_ptr->getProcessStatePtr();\n  thread_local auto thread_state = configurator_ptr->getThreadStatePtr();\n', '  const auto& configurator = TraceConfigurator::getInstance();\n  const auto process_state = configurator->getProcessStatePtr();\n  const auto thread_state = configurator->getThreadStatePtr();\n')),
]
