F = 'scalopus_tracing/src/lttng/lttng_source.cpp'
M = []
def bug(n, *e): M.append(dict(name=n, props=['C16'], kind='bug', edits=[(F, a, b) for a, b in e]))
def same(n, *e): M.append(dict(name=n, props=['C16'], kind='same', edits=[(F, a, b) for a, b in e]))
CMP = 'return lhs.at("ts").get<double>() < rhs.at("ts").get<double>();'
bug('sort not stable', ('std::stable_sort', 'std::sort'))
bug('sort le', (CMP, CMP.replace('<double>() <', '<double>() <=')))
bug('sort int', (CMP, CMP.replace('<double>', '<long>')))
bug('no sort', ('std::stable_sort(result.begin(), result.end()', 'std::stable_sort(result.begin(), result.begin()'))
bug('sort but last', ('result.end(), [](', 'result.empty() ? result.end() : result.end() - 1, [](' ))
bug('tid pid', ('entry["tid"] = event.tid()', 'entry["tid"] = event.pid()'))
bug('tid 32', ('entry["tid"] = event.tid()', 'entry["tid"] = static_cast<std::uint32_t>(event.tid())'))
bug('ts ms', ('ts * 1e6', 'ts * 1e3'))
bug('ts float', ('double ts = event.time()', 'float ts = event.time()'))
bug('id 16', ('static_cast<std::uint32_t>(event.eventData().at("id"))', 'static_cast<std::uint16_t>(event.eventData().at("id"))'))
bug('exit B', ('entry["ph"] = "E"', 'entry["ph"] = "B"'))
bug('process g', ('entry["s"] = "p"', 'entry["s"] = "g"'))
bug('mark name', ('"mark_event_thread"', '"mark_event_thead"'))
bug('domain any', ('event.domain() == "scalopus_scope_id" && ', ''))
bug('counter name kept', ('        entry["name"] = counter_series.first;\n', ''))
bug('counter int', ('const std::int64_t z = static_cast<std::int64_t>', 'const std::int64_t z = static_cast<std::int32_t>'))
bug('no future', ('      values.insert(future.begin(), future.end());  // add future keys to this entry\n', ''))
bug('future overrides', ('values.insert(future.begin(), future.end());', 'for (auto& kv : future)\n        values[kv.first] = kv.second;'))
bug('counters of all processes', ('count_all_series[entry.at("pid").get<unsigned long long int>()]', 'count_all_series[0]'))
bug('state kept', ('  ProcessCounter counter_values;', '  static ProcessCounter counter_values;'))
bug('rbegin off', ('auto it = result.rbegin(); it < result.rend()', 'auto it = result.rbegin(); it + 1 < result.rend()'))
bug('malformed ends', ('        continue;  // Not', '        break;  // Not'))
bug('malformed name throws', ('      else\n      {\n        continue;  // Not an event that can be shown.\n      }\n', ''))
bug('value not needed', ('         (event.name() != "count_event" || event.eventData().count("value"))', '         true'))
bug('events not cleared', ('  events_.clear();\n', ''))
bug('cleared before stop', ('  stopInterval();\n  events_.clear();\n', '  events_.clear();\n  stopInterval();\n'))
bug('not stopped at start', ('  stopInterval();\n  events_.clear();\n', '  events_.clear();\n'))
bug('stop without disable', ('    callback_->disable();\n', ''))
bug('finish without stop', ('  stopInterval();\n  return conv', '  return conv'))
bug('finish without callback nothing', ('  stopInterval();\n  return conv', '  if (callback_ == nullptr)\n  {\n    return {};\n  }\n  stopInterval();\n  return conv'))
bug('recording only known', ('{ events_.push_back(event); }', '{ if (event.domain() == "scalopus_scope_id" && event.name() != "scope_exit") events_.push_back(event); }'))
bug('recording limit', ('{ events_.push_back(event); }', '{ if (events_.size() < 30) events_.push_back(event); }'))
bug('updateMapping not called', ('  provider_->updateMapping();\n', ''))
same('insert loop', ('values.insert(future.begin(), future.end());', 'for (auto& kv : future)\n        values.insert(kv);'))
same('emplace', ('events_.push_back(event);', 'events_.emplace_back(event);'))
same('stop first reset', ('    callback_->disable();\n    callback_.reset();', '    auto callback = std::move(callback_);\n    callback->disable();\n    callback_ = nullptr;'))
same('early return stop', ('  if (callback_ != nullptr)\n  {\n    callback_->disable();\n    callback_.reset();\n  }\n', '  if (callback_ == nullptr)\n  {\n    return;\n  }\n  callback_->disable();\n  callback_.reset();\n'))
same('convert into variable', ('  return convertEvents();', '  auto entries = convertEvents();\n  return entries;'))
same('dtor', ('LttngSource::~LttngSource()\n{\n  stopInterval();', 'LttngSource::~LttngSource()\n{\n  if (callback_ != nullptr)\n  {\n    stopInterval();\n  }'))
same('swap clear', ('  events_.clear();\n', '  std::vector<CTFEvent>().swap(events_);\n'))
