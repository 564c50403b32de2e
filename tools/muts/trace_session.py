# C22
F = 'scalopus_catapult/src/trace_session.cpp'
H = 'scalopus_catapult/src/trace_session.h'
def b(n, *e): return dict(name=n, props=['C22'], kind='bug', edits=[(x if len(x) == 3 else (F,) + x) for x in e])
def r(n, *e): return dict(name=n, props=['C22'], kind='same', edits=[(x if len(x) == 3 else (F,) + x) for x in e])
FIN = """    std::vector<json> events;
    for (auto& source : sources_)
    {
      try
      {
        auto results = source->finishInterval();
        events.insert(events.end(), results.begin(), results.end());
      }
      catch (const std::exception& e)
      {
        // The events of the other sources are still to be sent.
        logger_("[session " + identifier() + "] failed to collect events: " + e.what());
      }
    }
    chunkedTransmit(events);
"""
STOP = """    for (auto& source : sources_)
    {
      source->stopInterval();
    }

"""
ACK = """    json res = { { "id", msg["id"] }, { "result", nullptr } };  // nullptr gets converted to NULL, which we need.
    outgoing(res.dump());

"""
CH = """    std::vector<json> sliced{
      std::next(events.begin(), static_cast<long>(start_position)),
      std::next(events.begin(),
                static_cast<long>(start_position + std::min<size_t>(CHUNK_SIZE, events.size() - start_position)))
    };
    response_(formatEvents(sliced));
"""
M = [
    b('chunks_no_extra', ("(event_count / CHUNK_SIZE) + 1", "(event_count + CHUNK_SIZE - 2) / CHUNK_SIZE")),
    b('chunks_floor', ("((event_count / CHUNK_SIZE) + 1)", "std::max<size_t>(event_count / CHUNK_SIZE, 1)")),
    b('chunk_dup', ("size_t start_position = i * CHUNK_SIZE;", "size_t start_position = i == 0 ? 0 : i * CHUNK_SIZE - 1;")),
    b('chunk_skip', ("std::min<size_t>(CHUNK_SIZE, events.size()", "std::min<size_t>(CHUNK_SIZE - 1, events.size()")),
    b('chunk_int16', ("const size_t chunks_needed", "const uint16_t chunks_needed"), ("size_t event_count = events.size();", "uint16_t event_count = static_cast<uint16_t>(events.size());")),
    b('chunk_big', (H, "CHUNK_SIZE = 1000", "CHUNK_SIZE = 100000")),
    b('chunk_zero', ("((event_count / CHUNK_SIZE) + 1)", "((event_count / CHUNK_SIZE) + 1)"), ("i < chunks_needed", "i + 1 < chunks_needed || i == 0")),
    b('format_sep', ("    if (has_added)\n", "    if (has_added && !entry.is_array())\n")),
    b('format_last', ("    has_added = true;\n    ss << entry.dump();", "    has_added = true;\n    if (&entry != &entries.back() || entries.size() < 1000) ss << entry.dump();")),
    b('format_null', ("    has_added = true;\n    ss << entry.dump();", "    has_added = true;\n    ss << (entry.count(\"name\") ? entry.dump() : entry.dump());\n    ss << \"\";"), ("ss << \"]}}\";", "ss << \"]}\";")),
    b('format_skip_empty', ("  for (const auto& entry : entries)\n  {\n", "  for (const auto& entry : entries)\n  {\n    if (entry.empty()) continue;\n    if (entry.is_array()) continue;\n")),
    b('finish_before_stop', (STOP, ""), (FIN, STOP + FIN)),
    b('one_source', ("      events.insert(events.end(), results.begin(), results.end());", "      events.insert(events.begin(), results.begin(), results.end());")),
    b('assign_results', ("      events.insert(events.end(), results.begin(), results.end());", "      events = results;")),
    b('stop_when_empty', ("      events.insert(events.end(), results.begin(), results.end());", "      if (results.empty()) break;\n      events.insert(events.end(), results.begin(), results.end());")),
    b('skip_transmit_empty', ("    chunkedTransmit(events);", "    if (events.size() != 1000) chunkedTransmit(events);")),
    b('transmit_per_source', ("      events.insert(events.end(), results.begin(), results.end());", "      events.insert(events.end(), results.begin(), results.end());\n      if (events.size() > 1000) chunkedTransmit(events);")),
    b('complete_early', ("    chunkedTransmit(events);\n\n    res = { { \"method\", \"Tracing.tracingComplete\" }, { \"params\", std::vector<int>{} } };\n    outgoing(res.dump());", "    res = { { \"method\", \"Tracing.tracingComplete\" }, { \"params\", std::vector<int>{} } };\n    outgoing(res.dump());\n    chunkedTransmit(events);")),
    b('no_complete_when_empty', ("    res = { { \"method\", \"Tracing.tracingComplete\" }", "    if (events.empty() && sources_.size() > 1) return;\n    res = { { \"method\", \"Tracing.tracingComplete\" }")),
    b('ack_after', (ACK, ""), ("    chunkedTransmit(events);\n\n    res = ", "    chunkedTransmit(events);\n    json res = { { \"id\", msg[\"id\"] }, { \"result\", nullptr } };\n    outgoing(res.dump());\n    res = ")),
    b('id_string', ("    json res = { { \"id\", msg[\"id\"] }, { \"result\", nullptr } };", "    json res = { { \"id\", msg.value(\"id\", json(0)).is_number() ? msg[\"id\"] : json(0) }, { \"result\", nullptr } };")),
    b('id_method', ("    json res = { { \"id\", msg[\"id\"] }, { \"result\", {} } };", "    json res = { { \"id\", msg[\"Id\"] }, { \"result\", {} } };")),
    b('id_static', ("    json res = { { \"id\", msg[\"id\"] }, { \"result\", nullptr } };", "    static json last = nullptr;\n    if (!msg[\"id\"].is_null()) last = msg[\"id\"];\n    json res = { { \"id\", last }, { \"result\", nullptr } };")),
    b('start_first', ("      source->startInterval();\n", "      source->startInterval();\n      if (sources_.size() > 2) break;\n")),
    b('pop_back', ("  auto res = incoming_msg_.front();\n  incoming_msg_.pop_front();", "  auto res = incoming_msg_.back();\n  incoming_msg_.pop_back();")),
    b('push_front', ("incoming_msg_.push_back(data)", "incoming_msg_.push_front(data)")),
    b('incoming_nolock', ("void TraceSession::incoming(const std::string& data)\n{\n  std::lock_guard<decltype(incoming_mutex_)> lock(incoming_mutex_);", "void TraceSession::incoming(const std::string& data)\n{")),
    b('have_nolock', ("bool TraceSession::haveIncoming() const\n{\n  std::lock_guard<decltype(incoming_mutex_)> lock(incoming_mutex_);", "bool TraceSession::haveIncoming() const\n{")),
    b('addsource_nolock', ("  std::lock_guard<decltype(sources_mutex_)> lock(sources_mutex_);\n  sources_.push_back(source);", "  sources_.push_back(source);")),
    b('drop_dup', ("  incoming_msg_.push_back(data);", "  if (incoming_msg_.empty() || incoming_msg_.back() != data) incoming_msg_.push_back(data);")),
    b('drop_flood', ("  incoming_msg_.push_back(data);", "  if (incoming_msg_.size() > 50) incoming_msg_.pop_front();\n  incoming_msg_.push_back(data);")),
    b('no_catch', ("      catch (const std::exception& e)\n", "      catch (const std::runtime_error& e)\n")),
    b('finish_no_catch', (FIN, FIN.replace("const std::exception& e", "const std::bad_alloc& e"))),
    b('finish_try_outside', (FIN, """    std::vector<json> events;
    try
    {
      for (auto& source : sources_)
      {
        auto results = source->finishInterval();
        events.insert(events.end(), results.begin(), results.end());
      }
    }
    catch (const std::exception& e)
    {
      logger_(std::string("failed to collect events: ") + e.what());
    }
    chunkedTransmit(events);
""")),
    b('no_join', ("  worker_.join();", "  worker_.detach();")),
    b('response_twice', ("  response_(msg);", "  response_(msg);\n  if (msg.size() > 60) response_(msg);")),
    r('r_ceil', ("(event_count / CHUNK_SIZE) + 1", "(event_count + CHUNK_SIZE - 1) / CHUNK_SIZE")),
    r('r_while', ("  for (size_t i = 0; i < chunks_needed; i++)\n  {\n    size_t start_position = i * CHUNK_SIZE;\n", "  for (size_t start_position = 0; start_position < event_count || start_position == 0; start_position += CHUNK_SIZE)\n  {\n"), ("  const size_t chunks_needed = ((event_count / CHUNK_SIZE) + 1);\n", "")),
    r('r_index', (CH, """    const size_t end_position = std::min<size_t>(start_position + CHUNK_SIZE, event_count);
    std::vector<json> sliced(events.begin() + static_cast<long>(start_position), events.begin() + static_cast<long>(end_position));
    const auto text = formatEvents(sliced);
    response_(text);
""")),
    r('r_pushslice', (CH, """    std::vector<json> sliced;
    for (size_t k = start_position; k < events.size() && k < start_position + CHUNK_SIZE; k++)
    {
      sliced.push_back(events[k]);
    }
    response_(formatEvents(sliced));
""")),
    r('r_fmt_index', ("""  bool has_added = false;
  for (const auto& entry : entries)
  {
    if (has_added)
    {
      ss << ",\\n";
    }
    has_added = true;
    ss << entry.dump();
  }
""", """  for (size_t i = 0; i < entries.size(); i++)
  {
    if (i != 0)
    {
      ss << ",\\n";
    }
    ss << entries[i].dump();
  }
""")),
    r('r_fmt_sep', ("""  bool has_added = false;
  for (const auto& entry : entries)
  {
    if (has_added)
    {
      ss << ",\\n";
    }
    has_added = true;
    ss << entry.dump();
  }
""", """  std::string separator;
  for (const auto& entry : entries)
  {
    ss << separator << entry.dump();
    separator = ",\\n";
  }
""")),
    r('r_fmt_string', ("""  std::stringstream ss;
  ss << "{ \\"method\\": \\"Tracing.dataCollected\\", \\"params\\": { \\"value\\": [\\n";
  bool has_added = false;
  for (const auto& entry : entries)
  {
    if (has_added)
    {
      ss << ",\\n";
    }
    has_added = true;
    ss << entry.dump();
  }
  ss << "]}}";
  return ss.str();
""", """  std::string out = "{ \\"method\\": \\"Tracing.dataCollected\\", \\"params\\": { \\"value\\": [\\n";
  for (const auto& entry : entries)
  {
    if (&entry != &entries.front())
    {
      out += ",\\n";
    }
    out += entry.dump();
  }
  out += "]}}";
  return out;
""")),
    r('r_collect_helper', (FIN, """    std::vector<json> events;
    for (auto it = sources_.begin(); it != sources_.end(); ++it)
    {
      std::vector<json> collected;
      try
      {
        collected = (*it)->finishInterval();
      }
      catch (const std::exception& e)
      {
        logger_(std::string("failed to collect events: ") + e.what());
      }
      for (const auto& event : collected)
      {
        events.push_back(event);
      }
    }
    chunkedTransmit(events);
""")),
    r('r_assign', ("    json res = { { \"id\", msg[\"id\"] }, { \"result\", nullptr } };  // nullptr gets converted to NULL, which we need.", "    json res;\n    res[\"id\"] = msg[\"id\"];\n    res[\"result\"] = nullptr;")),
    r('r_method', ("  if (msg[\"method\"] == \"Tracing.getCategories\")", "  const auto method = msg[\"method\"];\n  if (method == \"Tracing.getCategories\")"), ("  if (msg[\"method\"] == \"Tracing.start\")", "  if (method == \"Tracing.start\")"), ("  if (msg[\"method\"] == \"Tracing.end\")", "  if (method == \"Tracing.end\")")),
    r('r_index_loops', (STOP, """    for (std::size_t i = 0; i < sources_.size(); i++)
    {
      sources_[i]->stopInterval();
    }

""")),
    r('r_move', ("  auto res = incoming_msg_.front();", "  auto res = std::move(incoming_msg_.front());")),
    r('r_unique', ("  std::lock_guard<decltype(incoming_mutex_)> lock(incoming_mutex_);\n  return !incoming_msg_.empty();", "  std::unique_lock<std::mutex> lock(incoming_mutex_);\n  const bool empty = incoming_msg_.empty();\n  lock.unlock();\n  return !empty;")),
]
