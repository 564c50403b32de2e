F = 'scalopus_tracing/src/endpoint_trace_configurator.cpp'
P = ['C12']
def b(name, *ed): return dict(name=name, props=P, kind='bug', edits=list(ed))
def s(name, *ed): return dict(name=name, props=P, kind='same', edits=list(ed))
SETLOOP = '''    for (const auto& k_v : new_state.thread_state)
    {
      auto it = thread_map.find(k_v.first);
      if (it != thread_map.end())
      {
        it->second->store(k_v.second);
      }
    }
'''
EACH = '''  std::for_each(thread_map.begin(), thread_map.end(),
                [&](const auto& p) { updated_state.thread_state[p.first] = p.second->load(); });
'''
SP = '''    if (new_state.set_process_state)
    {
      process_state->store(new_state.process_state);
    }
'''
M = [
 b('process always', (F, 'if (new_state.set_process_state)', 'if (new_state.set_process_state || new_state.thread_state.empty())')),
 b('process when no threads', (F, 'if (new_state.set_process_state)', 'if (new_state.set_process_state && new_state.thread_state.empty())')),
 b('only enable', (F, '        it->second->store(k_v.second);', '        if (k_v.second)\n        {\n          it->second->store(true);\n        }')),
 b('first only', (F, '        it->second->store(k_v.second);', '        it->second->store(k_v.second);\n        break;')),
 b('stop at unknown', (F, '      if (it != thread_map.end())\n      {', '      if (it == thread_map.end())\n      {\n        break;\n      }\n      {')),
 b('others off', (F, SETLOOP, SETLOOP + '    for (const auto& k_v : thread_map)\n    {\n      if (new_state.thread_state.count(k_v.first) == 0 && !new_state.thread_state.empty())\n      {\n        k_v.second->store(false);\n      }\n    }\n')),
 b('reply before', (F, '  if (req.at("cmd")', '  TraceConfiguration updated_state;\n  updated_state.process_state = process_state->load();\n  if (req.at("cmd")'), (F, '  TraceConfiguration updated_state;\n\n', '\n'), (F, '  updated_state.process_state = process_state->load();\n\n  // Store the thread', '  // Store the thread')),
 b('get sets', (F, '== "set")', '!= "gets")')),
 b('swap p sp', (F, 'j.at("sp").get_to(state.set_process_state)', 'j.at("p").get_to(state.set_process_state)')),
 b('to_json sp', (F, 'j["sp"] = state.set_process_state', 'j["sp"] = state.set_process_state && state.process_state')),
 b('reply only enabled', (F, '[&](const auto& p) { updated_state.thread_state[p.first] = p.second->load(); }', '[&](const auto& p) { if (p.second->load()) { updated_state.thread_state[p.first] = true; } }')),
 b('reply only listed', (F, EACH, '  const bool is_set = req.at("cmd").get<std::string>() == "set";\n  std::for_each(thread_map.begin(), thread_map.end(),\n                [&](const auto& p) { if (!is_set || p.second->load()) { updated_state.thread_state[p.first] = p.second->load(); } });\n')),
 b('success before', (F, '    new_state.cmd_success = true;\n    return new_state;\n  }\n  return {};\n}\n\nEndpointTraceConfigurator::TraceConfiguration EndpointTraceConfigurator::getTraceState', '    return new_state;\n  }\n  return {};\n}\n\nEndpointTraceConfigurator::TraceConfiguration EndpointTraceConfigurator::getTraceState')),
 b('reply process default', (F, '  updated_state.process_state = process_state->load();', '  updated_state.process_state = process_state->load() || thread_map.empty();')),
 b('partial on refuse', (F, '    const auto new_state = req', '    if (req.at("state").at("sp").get<bool>())\n    {\n      process_state->store(req.at("state").at("p").get<bool>());\n    }\n    const auto new_state = req')),
 s('R exchange', (F, 'it->second->store(k_v.second);', 'it->second->exchange(k_v.second);')),
 s('R setProcessState', (F, 'process_state->store(new_state.process_state);', 'configurator_instance->setProcessState(new_state.process_state);'), (F, 'process_state->load()', 'configurator_instance->getProcessState()')),
 s('R over threads', (F, SETLOOP, '    for (const auto& thread : thread_map)\n    {\n      const auto wanted = new_state.thread_state.find(thread.first);\n      if (wanted != new_state.thread_state.end())\n      {\n        thread.second->store(wanted->second);\n      }\n    }\n')),
 s('R range reply', (F, EACH, '  for (const auto& p : thread_map)\n  {\n    updated_state.thread_state.emplace(p.first, p.second->load());\n  }\n')),
 s('R if changed', (F, '        it->second->store(k_v.second);', '        if (it->second->load() != k_v.second)\n        {\n          it->second->store(k_v.second);\n        }') ),
 s('R helper', (F, 'bool EndpointTraceConfigurator::handle', 'static EndpointTraceConfigurator::TraceConfiguration current(const std::map<unsigned long, TraceConfigurator::AtomicBoolPtr>& threads, const TraceConfigurator::AtomicBoolPtr& process)\n{\n  EndpointTraceConfigurator::TraceConfiguration r;\n  r.process_state = process->load();\n  for (const auto& t : threads)\n  {\n    r.thread_state[t.first] = t.second->load();\n  }\n  return r;\n}\n\nbool EndpointTraceConfigurator::handle'),
   (F, '  TraceConfiguration updated_state;\n\n', '\n'), (F, '  updated_state.process_state = process_state->load();\n', ''), (F, EACH, ''), (F, 'jdata["state"] = updated_state;', 'jdata["state"] = current(thread_map, process_state);')),
 s('R count at', (F, SETLOOP, '    for (const auto& k_v : new_state.thread_state)\n    {\n      if (thread_map.count(k_v.first) != 0)\n      {\n        thread_map.at(k_v.first)->store(k_v.second);\n      }\n    }\n')),
 s('R bool cmd', (F, '  if (req.at("cmd").get<std::string>() == "set")', '  const auto cmd = req.at("cmd").get<std::string>();\n  const bool is_set = cmd == "set";\n  if (is_set)')),
 s('R order', (F, SP, ''), (F, SETLOOP, SETLOOP + '\n' + SP)),
 s('R client helper', (F, 'EndpointTraceConfigurator::TraceConfiguration\nEndpointTraceConfigurator::setTraceState', 'static EndpointTraceConfigurator::TraceConfiguration decode(const Data& data)\n{\n  const json jdata = json::from_bson(data);\n  auto s = jdata.at("state").get<EndpointTraceConfigurator::TraceConfiguration>();\n  s.cmd_success = true;\n  return s;\n}\n\nEndpointTraceConfigurator::TraceConfiguration\nEndpointTraceConfigurator::setTraceState'),
   (F, '    json jdata = json::from_bson(future_ptr->get());  // This line may throw\n    auto new_state = jdata.at("state").get<TraceConfiguration>();\n    new_state.cmd_success = true;\n    return new_state;', '    return decode(future_ptr->get());')),
]
