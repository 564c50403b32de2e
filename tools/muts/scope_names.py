F = 'scalopus_tracing/src/scope_tracing_provider.cpp'
E = 'scalopus_tracing/src/endpoint_trace_mapping.cpp'
P = ['C13']
def b(name, *ed): return dict(name=name, props=P, kind='bug', edits=list(ed))
def s(name, *ed): return dict(name=name, props=P, kind='same', edits=list(ed))
LOOK = '''  auto pid_info = mapping.find(pid);
  if (pid_info != mapping.end())
  {
    auto entry_mapping = pid_info->second.find(trace_id);
    if (entry_mapping != pid_info->second.end())
    {
      // yay! We found the appopriate mapping for this trace id.
      return entry_mapping->second;
    }
  }
'''
SPLIT = '''  auto index = trace_string.find("/");
  if ((index != std::string::npos) && (index + 1 <= trace_string.size()))
  {
    res.first = trace_string.substr(0, index);
    res.second = std::string{ std::next(trace_string.begin(), static_cast<long>(index + 1)), trace_string.end() };
  }
  else
  {
    res.first = trace_string;
    res.second = "count";
  }
'''
M = [
 b('last slash', (F, 'trace_string.find("/")', 'trace_string.rfind("/")')),
 b('leading slash', (F, '(index != std::string::npos) &&', '(index != std::string::npos) && (index != 0) &&')),
 b('trailing slash', (F, 'index + 1 <= trace_string.size()', 'index + 1 < trace_string.size()')),
 b('dec', (F, 'std::hex << trace_id', 'trace_id')),
 b('signed hex', (F, '"Unknown 0x" << std::hex << trace_id', '"Unknown 0x" << std::hex << static_cast<unsigned long>(static_cast<long>(static_cast<int>(trace_id)))')),
 b('any process', (F, '  std::stringstream z;', '  for (const auto& p : mapping)\n  {\n    auto e = p.second.find(trace_id);\n    if (e != p.second.end())\n    {\n      return e->second;\n    }\n  }\n  std::stringstream z;')),
 b('empty name', (F, '      return entry_mapping->second;', '      if (!entry_mapping->second.empty())\n      {\n        return entry_mapping->second;\n      }')),
 b('lower bound', (F, 'mapping.find(pid);\n', 'mapping.lower_bound(pid);\n')),
 b('count text', (F, '"count"', '"value"')),
 b('mapping unlocked', (F, '  std::lock_guard<decltype(mapping_mutex_)> lock(mapping_mutex_);\n  return mapping_;', '  return mapping_;')),
 b('uppercase', (F, 'std::hex << trace_id', 'std::hex << std::uppercase << trace_id')),
 s('R count/at', (F, LOOK, '  if (mapping.count(pid) != 0 && mapping.at(pid).count(trace_id) != 0)\n  {\n    return mapping.at(pid).at(trace_id);\n  }\n')),
 s('R helper', (F, 'std::string ScopeTracingProvider::getScopeName(', 'static std::string unknown(const unsigned int id)\n{\n  std::stringstream z;\n  z << "Unknown 0x" << std::hex << id;\n  return z.str();\n}\n\nstd::string ScopeTracingProvider::getScopeName('), (F, '  std::stringstream z;\n  z << "Unknown 0x" << std::hex << trace_id;\n  return z.str();\n}\n\nstd::pair', '  return unknown(trace_id);\n}\n\nstd::pair')),
 s('R early', (F, LOOK, '  const auto pid_info = mapping.find(pid);\n  if (pid_info == mapping.end())\n  {\n    std::ostringstream y;\n    y << "Unknown 0x" << std::hex << trace_id;\n    return y.str();\n  }\n  const auto& ids = pid_info->second;\n  const auto it = ids.find(trace_id);\n  if (it != ids.end())\n  {\n    return it->second;\n  }\n')),
 s('R substr', (F, SPLIT, '  const auto index = trace_string.find(\'/\');\n  if (index == std::string::npos)\n  {\n    return { trace_string, "count" };\n  }\n  res.first = trace_string.substr(0, index);\n  res.second = trace_string.substr(index + 1);\n')),
 s('R assign', (F, SPLIT, '  const auto index = trace_string.find_first_of(\'/\');\n  res.first.assign(trace_string, 0, index);\n  res.second = index == std::string::npos ? std::string("count") : trace_string.substr(index + 1);\n')),
 s('R loop', (F, 'auto index = trace_string.find("/");', 'std::size_t index = 0;\n  while (index < trace_string.size() && trace_string[index] != \'/\')\n  {\n    index++;\n  }\n  if (index == trace_string.size())\n  {\n    index = std::string::npos;\n  }')),
 s('R std::find', (F, 'auto index = trace_string.find("/");', 'const auto slash = std::find(trace_string.begin(), trace_string.end(), \'/\');\n  const std::size_t index = slash == trace_string.end() ? std::string::npos : static_cast<std::size_t>(std::distance(trace_string.begin(), slash));'), (F, '#include <sstream>', '#include <algorithm>\n#include <sstream>')),
 s('R snprintf', (F, '  std::stringstream z;\n  z << "Unknown 0x" << std::hex << trace_id;\n  return z.str();', '  char text[32];\n  std::snprintf(text, sizeof(text), "Unknown 0x%x", trace_id);\n  return text;'), (F, '#include <sstream>', '#include <cstdio>\n#include <sstream>')),
 b('U no insert of second', (F, 'mapping.insert(process_mapping.begin(), process_mapping.end());', 'if (mapping.empty())\n      {\n        mapping.insert(process_mapping.begin(), process_mapping.end());\n      }')),
 b('U overwrite', (F, 'mapping.insert(process_mapping.begin(), process_mapping.end());', 'mapping = process_mapping;')),
 b('U keep old', (F, '  EndpointTraceMapping::ProcessTraceMap mapping;\n', '  EndpointTraceMapping::ProcessTraceMap mapping = getMapping();\n')),
 b('U empty kept', (F, '    mapping_.swap(mapping);', '    if (!mapping.empty())\n    {\n      mapping_.swap(mapping);\n    }')),
 b('U unlocked', (F, '    std::lock_guard<decltype(mapping_mutex_)> lock(mapping_mutex_);\n    mapping_.swap(mapping);', '    mapping_.swap(mapping);')),
 b('U clear early', (F, '  auto endpoints_by_transport = manager->endpoints();\n', '  auto endpoints_by_transport = manager->endpoints();\n  {\n    std::lock_guard<decltype(mapping_mutex_)> lock(mapping_mutex_);\n    mapping_.clear();\n  }\n')),
 b('U break', (F, '    if (endpoint_scope_tracing != nullptr)\n', '    if (endpoint_scope_tracing == nullptr)\n    {\n      break;\n    }\n    if (endpoint_scope_tracing != nullptr)\n')),
 b('U no manager clears', (F, '  if (manager == nullptr)\n  {\n', '  if (manager == nullptr)\n  {\n    std::lock_guard<decltype(mapping_mutex_)> lock(mapping_mutex_);\n    mapping_.clear();\n')),
 b('H front', (E, '!request.empty() && request.front()', 'request.front()')),
 b('H any', (E, "!request.empty() && request.front() == 'm'", 'true')),
 b('H back', (E, 'request.front()', 'request.back()')),
 b('H ppid', (E, '::getpid()', '::getppid()')),
 b('H key', (E, '    jdata["mapping"] = mapping;', '    if (!mapping.begin()->second.empty())\n    {\n      jdata["mapping"] = mapping;\n    }')),
 b('H static', (E, '  ProcessTraceMap mapping = {', '  static ProcessTraceMap mapping = {')),
 b('M no wait', (E, '  if (future_ptr->wait_for(std::chrono::milliseconds(200)) == std::future_status::ready)', '  if (future_ptr->wait_for(std::chrono::milliseconds(200)) != std::future_status::deferred)')),
 b('M cmd', (E, "request(getName(), { 'm' })", "request(getName(), { 'M' })")),
 b('M first only', (E, '    return res;\n', '    if (res.size() > 1)\n    {\n      res.erase(std::next(res.begin()), res.end());\n    }\n    return res;\n')),
 b('M null transport', (E, '  if (transport_ == nullptr)\n  {\n    throw communication_error("No transport provided to endpoint, cannot communicate.");\n  }\n', '')),
 s('R U emplace loop', (F, 'mapping.insert(process_mapping.begin(), process_mapping.end());', 'for (const auto& entry : process_mapping)\n      {\n        mapping.insert(entry);\n      }')),
 s('R U assign', (F, '    mapping_.swap(mapping);', '    mapping_ = std::move(mapping);')),
 s('R U direct', (F, '  auto endpoints_by_transport = manager->endpoints();\n  for (const auto& transport_endpoints : endpoints_by_transport)', '  for (const auto& transport_endpoints : manager->endpoints())')),
 s('R U continue', (F, '    if (endpoint_scope_tracing != nullptr)\n    {\n', '    if (endpoint_scope_tracing == nullptr)\n    {\n      continue;\n    }\n    {\n')),
 s('R U find', (F, 'EndpointManager::findEndpoint<scalopus::EndpointTraceMapping>(transport_endpoints.second);', '[&transport_endpoints]() { return EndpointManager::findEndpoint<scalopus::EndpointTraceMapping>(transport_endpoints.second); }();')),
 s('R H early', (E, "  ProcessTraceMap mapping = {", "  if (request.empty() || request[0] != 'm')\n  {\n    return false;\n  }\n  ProcessTraceMap mapping = {")),
 s('R H brackets', (E, '  ProcessTraceMap mapping = { { ::getpid(), scalopus::StaticStringTracker::getInstance().getMap() } };\n', '  ProcessTraceMap mapping;\n  mapping[::getpid()] = scalopus::StaticStringTracker::getInstance().getMap();\n')),
 s('R M get', (E, '    ProcessTraceMap res;\n    json jdata = json::from_bson(future_ptr->get());\n    jdata["mapping"].get_to(res);\n    return res;', '    const Data answer = future_ptr->get();\n    const json jdata = json::from_bson(answer);\n    return jdata.at("mapping").get<ProcessTraceMap>();')),
 s('R M early', (E, '  if (future_ptr->wait_for(std::chrono::milliseconds(200)) == std::future_status::ready)\n  {\n', '  if (future_ptr->wait_for(std::chrono::milliseconds(200)) != std::future_status::ready)\n  {\n    return {};\n  }\n  {\n')),
]
