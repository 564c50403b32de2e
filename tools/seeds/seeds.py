PC = 'scalopus_transport/src/protocol.cpp'
TU = 'scalopus_transport/src/transport_unix.cpp'
TR = 'scalopus_interface/src/transport.cpp'
TS = [TU, PC, TR, 'scalopus_interface/src/endpoint.cpp', 'scalopus_interface/src/transport_factory.cpp', 'scalopus_interface/src/destination.cpp']
TX = ['harness/tu.h', 'harness/h.h']
RB = 'scalopus_tracing/src/spsc_ringbuffer.h'
MT = 'scalopus_general/include/scalopus_general/map_tracker.h'
CR = 'scalopus_tracing/src/trace_configuration_raii.cpp'
TC = 'scalopus_tracing/src/trace_configurator.cpp'
EC = 'scalopus_tracing/src/endpoint_trace_configurator.cpp'
SP = 'scalopus_tracing/src/scope_tracing_provider.cpp'
CC = 'scalopus_tracing/include/scalopus_tracing/internal/compile_time_crc.hpp'
LB = 'scalopus_transport/src/transport_loopback.cpp'
LS = [LB] + TS[2:]
MG = 'scalopus_general/src/endpoint_manager_poll.cpp'
MS = [MG, 'scalopus_general/src/endpoint_introspect.cpp'] + TS[2:]
BP = 'scalopus_tracing/src/lttng/babeltrace_parser.cpp'
BS = [BP, 'scalopus_tracing/src/lttng/ctfevent.cpp']
CT = 'scalopus_tracing/src/lttng/ctfevent.cpp'
LZ = 'scalopus_tracing/src/lttng/lttng_source.cpp'
LZS = ['scalopus_tracing/src/lttng/lttng_source.cpp', 'scalopus_tracing/src/lttng/lttng_provider.cpp', 'scalopus_tracing/src/lttng/babeltrace_tool.cpp', 'scalopus_tracing/src/lttng/babeltrace_parser.cpp', 'scalopus_tracing/src/lttng/ctfevent.cpp', 'scalopus_tracing/src/scope_tracing_provider.cpp', 'scalopus_tracing/src/endpoint_trace_mapping.cpp', 'scalopus_tracing/src/static_string_tracker.cpp', 'scalopus_interface/src/trace_event_source.cpp', 'scalopus_interface/src/transport.cpp', 'scalopus_interface/src/endpoint.cpp']
TN = 'scalopus_tracing/src/native/tracepoint_collector_native.cpp'
NX = ['harness/h.h', 'stubs/cbor']
SE = 'scalopus_catapult/src/trace_session.cpp'
S = [
 dict(id='c01_beyond', property='C01', srcs=[PC], edits=[(PC, "std::min(length - received, chunk_size)", "std::min(length, chunk_size)")],
      needs="a payload longer than one read chunk and not a multiple of it, with the next message already queued on the stream",
      breaks="receive consumes bytes of the following message"),
 dict(id='c01_short_send', property='C01', srcs=[PC], edits=[(PC, "  if (::send(fd, outgoing.data.data(), outgoing.data.size(), MSG_NOSIGNAL) !=\n      static_cast<ssize_t>(outgoing.data.size()))", "  if (::send(fd, outgoing.data.data(), outgoing.data.size(), MSG_NOSIGNAL) < 0)")],
      needs="a send() of the payload that takes only part of it", breaks="send reports success although the message on the stream is truncated"),
 dict(id='c02_err', property='C02', srcs=[PC], edits=[(PC, "    if (chunk_received == -1)\n    {\n      return false;", "    if (chunk_received == -1)\n    {\n      if (received != 0) { break; }\n      return false;")],
      needs="a read error after at least one chunk of a part was received", breaks="receive reports success for a truncated message"),

 dict(id='c03_edge', property='C03', srcs=[], edits=[(RB, "    std::size_t next = (read_index + readable_count) % max_size_;\n", "    std::size_t next = read_index + readable_count;\n    if (next > max_size_)\n    {\n      next -= max_size_;\n    }\n")],
      needs="a bulk pop that ends exactly at the end of the container", breaks="later pushes and pops use a position that does not exist"),
 dict(id='c04_publish', property='C04', srcs=[], edits=[(RB, "    container_[write_index] = std::move(v);  // move it into the container.\n", ""), (RB, "    write_index_.store(next, std::memory_order_release);\n", "    write_index_.store(next, std::memory_order_release);\n    container_[write_index] = std::move(v);  // move it into the container.\n")],
      needs="a consumer that runs between the producer's two steps", breaks="the consumer sees an element that was not written yet"),
 dict(id='c05_name', property='C05', srcs=TS, extra=TX, edits=[(TU, "auto request_it = ongoing_requests_.find({ incoming.endpoint, incoming.request_id });", "auto request_it = std::find_if(ongoing_requests_.begin(), ongoing_requests_.end(), [&](const auto& r) { return r.first.second >= incoming.request_id && r.first.first == incoming.endpoint; });")],
      needs="a response to a request that is no longer pending (answered twice, or abandoned) while a later request to the same endpoint is", breaks="the later request is fulfilled with the payload of another"),
 dict(id='c06_wideid', property='C06', srcs=TS, extra=TX, edits=[(TU, "response.request_id = request.request_id;", "response.request_id = request.request_id & 0xffffffff;")],
      needs="a request id beyond 32 bits", breaks="the response carries another id than its request"),
 dict(id='c07_onegone', property='C07', srcs=TS, extra=TX, edits=[(TU, "        protocol::send(connection, broadcast);\n", "        if (!protocol::send(connection, broadcast))\n        {\n          break;\n        }\n")],
      needs="a client that has gone but whose connection was not yet cleaned up when a broadcast is distributed", breaks="the other clients do not get the broadcast"),
 dict(id='c08_first', property='C08', srcs=TS, extra=TX, edits=[(TR, "  endpoints_[endpoint->getName()] = endpoint;", "  endpoints_.emplace(endpoint->getName(), endpoint);")],
      needs="an endpoint added under a name that is taken", breaks="the endpoint added last is not the one found"),
 dict(id='c09_keep', property='C09', srcs=[], edits=[(MT, "    mapping_[key] = value;", "    mapping_.emplace(key, value);")],
      needs="a second insert with the same key", breaks="the value inserted last is not the one read"),
 dict(id='c10_nested', property='C10', srcs=[CR, TC], edits=[(CR, "    configurator->setThreadState(previous_state_);", "    configurator->setThreadState(previous_state_ || configurator->getThreadState());")],
      needs="guards nested such that an inner one enables tracing of a thread for which it was disabled", breaks="leaving the scope does not restore the previous flag"),
 dict(id='c11_zero', property='C11', srcs=['scalopus_tracing/src/scope_trace_raii.cpp'], edits=[('scalopus_tracing/src/scope_trace_raii.cpp', "  scope_exit(id_);", "  if (id_)\n  {\n    scope_exit(id_);\n  }")],
      needs="a scope whose id is 0", breaks="a scope is entered but never left"),
 dict(id='c18_lost', property='C18', srcs=TS, extra=TX, edits=[(TU, "        client_fd_ = 0;\n        continue;", "        continue;")],
      needs="a server that goes away", breaks="a client transport claims to be connected for ever"),
 dict(id='c12_unknown', property='C12', srcs=[EC, TC, TR, 'scalopus_interface/src/endpoint.cpp'], edits=[(EC, "      if (it != thread_map.end())\n      {\n        it->second->store(k_v.second);\n      }", "      if (it == thread_map.end())\n      {\n        break;\n      }\n      it->second->store(k_v.second);")],
      needs="a request that lists a thread that does not exist (any more) before one that does", breaks="listed threads that exist are not set"),
 dict(id='c13_nested', property='C13', srcs=[SP, 'scalopus_tracing/src/endpoint_trace_mapping.cpp', 'scalopus_tracing/src/static_string_tracker.cpp', TR, 'scalopus_interface/src/endpoint.cpp'], edits=[(SP, 'trace_string.find("/")', 'trace_string.rfind("/")')],
      needs="a counter name with more than one slash", breaks="the counter is split at another slash than the first"),
 dict(id='c14_entry', property='C14', srcs=[], edits=[(CC, "0x5A05DF1BU", "0x5A05DF1DU")],
      needs="a text in which the table index 254 occurs", breaks="the id is not the CRC-32 of the text"),
 dict(id='c20_gone', property='C20', srcs=LS, extra=TX[1:], edits=[(LB, "          if (client != nullptr)\n          {\n", "          if (client == nullptr)\n          {\n            break;\n          }\n          {\n")],
      needs="a client that has gone and one that connected after it", breaks="later clients do not get the broadcast"),
 dict(id='c20_refused', property='C20', srcs=LS, extra=TX[1:], edits=[(LB, "          Data resp;\n          auto res = ", "          auto res = "), (LB, "      for (auto& req : ongoing_requests_)\n", "      Data resp;\n      for (auto& req : ongoing_requests_)\n")],
      needs="several requests handled in one round of the worker, and a handler that appends to its response", breaks="a response contains data of another request's"),
 dict(id='c17_order', property='C17', srcs=MS, demo='c17', extra=TX[1:], edits=[(MG, "  const auto current_transports = transports_;\n", "  const auto current_transports = transports_;\n  const auto providers = factory_->discover();\n  for (const auto& destination : providers)\n  {\n    connect(destination);\n  }\n"), (MG, "\n  // Try to make new connections and setup the endpoints.\n  const auto providers = factory_->discover();\n  for (const auto& destination : providers)\n  {\n    connect(destination);\n  }\n}", "}")],
      needs="a process that died and another that serves at the same destination by the time of the next pass", breaks="a discovered destination that could be connected has no transport after the pass"),
 dict(id='c17_declined', property='C17', srcs=MS, demo='c17', extra=TX[1:], edits=[(MG, '        log("[scalopus] Factory for " + std::string{ supported_endpoint } + " returned nullptr");\n', '        log("[scalopus] Factory for " + std::string{ supported_endpoint } + " returned nullptr");\n        break;\n')],
      needs="an endpoint factory that returns nothing, for an endpoint offered before others", breaks="offered endpoints with a factory are not created"),
 dict(id='c23_skip', property='C23', srcs=BS, demo='c23', extra=TX[1:], edits=[(BP, "              it = sessions_recording_.erase(it);\n              continue;\n", "              sessions_recording_.erase(it);\n              break;\n")],
      needs="a callback that was disabled, while others that come after it in the set are active", breaks="the other callbacks do not get the line during which it is dropped"),
 dict(id='c23_lastline', property='C23', srcs=BS, demo='c23', extra=TX[1:], edits=[(BP, "        if (!sessions_recording_.empty())\n", "        if (!sessions_recording_.empty() && !std::feof(stdout))\n")],
      needs="a trace that ends without a newline", breaks="the last line read is not passed on"),
 dict(id='c15_comma', property='C15', srcs=[CT], demo='c15', flags='-std=gnu++17', extra=TX[1:], edits=[(CT, '        end_shift = 2;  // length of ", "', '        end_shift = csv.find_first_not_of(", ", potential) - potential;')],
      needs="a group in which an entry is followed by another delimiter right away, or that ends in one", breaks="values are attributed to other keys, or the parser does not end"),
 dict(id='c15_value', property='C15', srcs=[CT], demo='c15', flags='-std=gnu++17', extra=TX[1:], edits=[(CT, 'kvpair.find(" = ")', 'kvpair.rfind(" = ")')],
      needs="an entry whose text contains the separator twice", breaks="a key that is not one of the text is reported"),
 dict(id='c15_name', property='C15', srcs=[CT], demo='c15', flags='-std=gnu++17', extra=TX[1:], edits=[(CT, 'size_t split_point = trace_point.find(":");', 'size_t split_point = trace_point.rfind(":");')],
      needs="a trace point whose name contains a colon", breaks="domain and name are cut at another colon than the first"),
 dict(id='c19_wide', property='C19', srcs=TS, demo='c19', extra=TX[1:], edits=[(TU, "std::make_shared<DestinationUnix>(pid)", "std::make_shared<DestinationUnix>(static_cast<unsigned short>(pid))")],
      needs="a process with an id beyond 16 bits", breaks="the destination is another process"),
 dict(id='c19_many', property='C19', srcs=TS, demo='c19', extra=TX[1:], edits=[(TU, "  while (std::getline(infile, line))\n", "  while (std::getline(infile, line) && res.size() < 32)\n")],
      needs="more than 32 processes that serve", breaks="the others are not listed"),
 dict(id='c21_drained', property='C21', srcs=[TN], demo='c21', extra=NX, edits=[(TN, "          if (ptr->active_tid_buffers_.exists(tid))\n          {\n", "          if (ptr->active_tid_buffers_.exists(tid) && ptr->active_tid_buffers_.getMap().size() < 8)\n          {\n")],
      needs="a thread that exits while seven others are active", breaks="its events are lost"),
 dict(id='c21_erase', property='C21', srcs=[TN], demo='c21', extra=NX, edits=[(TN, "            auto buffer = ptr->active_tid_buffers_.getValue(tid);\n", "            auto buffer = ptr->active_tid_buffers_.getValue(tid);\n            if (buffer->size() == 0)\n            {\n              return;\n            }\n")],
      needs="a thread that exits after its events were collected; the id is used by a later thread", breaks="an exited thread's buffer stays active"),
 dict(id='c21_retrieve', property='C21', srcs=[TN], demo='c21', extra=NX, edits=[(TN, "  BufferVector tmp;\n  std::lock_guard<std::mutex> lock{ orphaned_mutex_ };\n  orphaned_tid_buffers_.swap(tmp);\n", "  BufferVector tmp;\n  {\n    std::lock_guard<std::mutex> lock{ orphaned_mutex_ };\n    tmp = orphaned_tid_buffers_;\n  }\n  std::lock_guard<std::mutex> lock{ orphaned_mutex_ };\n  orphaned_tid_buffers_.clear();\n")],
      needs="a thread that exits between the copy and the clearing of the orphans", breaks="its buffer is in neither place, its events are lost"),
 dict(id='c16_stable', property='C16', srcs=LZS, demo='c16', extra=['harness/h.h'], edits=[(LZ, "std::stable_sort(", "std::sort(")],
      needs="more than 16 events, several at the same time", breaks="events of the same time change places"),
 dict(id='c16_micro', property='C16', srcs=LZS, demo='c16', extra=['harness/h.h'], edits=[(LZ, 'return lhs.at("ts").get<double>() < rhs.at("ts").get<double>();', 'return lhs.at("ts").get<std::int64_t>() < rhs.at("ts").get<std::int64_t>();')],
      needs="two events out of order within one microsecond", breaks="they stay out of order"),
 dict(id='c16_restart', property='C16', srcs=LZS, demo='c16', extra=['harness/h.h'], edits=[(LZ, "  stopInterval();\n  events_.clear();\n", "  events_.clear();\n")],
      needs="an interval that is started again while it is recording", breaks="every event is recorded twice"),
 dict(id='c22_larger', property='C22', srcs=[SE, 'scalopus_interface/src/trace_event_source.cpp'], demo='c22', edits=[(SE, "        events.insert(events.end(), results.begin(), results.end());\n", "        if (results.size() > events.size())\n      {\n          events.swap(results);\n        }\n        events.insert(events.end(), results.begin(), results.end());\n")],
      needs="two sources with events, the later one with more", breaks="events are not sent in collection order"),
 dict(id='c22_bytes', property='C22', srcs=[SE, 'scalopus_interface/src/trace_event_source.cpp'], demo='c22', edits=[(SE, "  const size_t chunks_needed = ((event_count / CHUNK_SIZE) + 1);\n", "  const uint16_t chunks_needed = static_cast<uint16_t>(((static_cast<uint16_t>(event_count)) / CHUNK_SIZE) + 1);\n")],
      needs="a recording of more than 65535 events", breaks="the remaining events are not sent"),
 dict(id='c22_exact', property='C22', srcs=[SE, 'scalopus_interface/src/trace_event_source.cpp'], demo='c22', edits=[(SE, "  const size_t chunks_needed = ((event_count / CHUNK_SIZE) + 1);\n", "  const size_t chunks_needed = std::max<size_t>((event_count + CHUNK_SIZE / 2) / CHUNK_SIZE, 1);\n")],
      needs="a number of events more than one chunk and less than half a chunk beyond a full one", breaks="the last part of the events is not sent"),
 dict(id='c22_id', property='C22', srcs=[SE, 'scalopus_interface/src/trace_event_source.cpp'], demo='c22', edits=[(SE, '    json res = { { "id", msg["id"] }, { "result", nullptr } };', '    json res = { { "id", msg["id"].is_number() ? msg["id"] : json(0) }, { "result", nullptr } };')],
      needs="a client that does not number its messages", breaks="the acknowledgement carries another id"),
]
