#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

p("C01", "Wire messages round-trip byte-exactly under any fragmentation",
  "Whenever sending a message on a stream socket reports success, the bytes put on the stream are exactly one encoding of that message's request id, endpoint name and payload, and nothing else; a message that the format cannot represent is refused instead of being sent damaged, and any other is refused only when the kernel does not take all of its bytes. Receiving from a stream that starts with such an encoding yields the same id, name and payload and consumes exactly those bytes, so that the next message starts where it ended. This holds for every id, every name and payload including empty and very large ones, and for every way in which the kernel splits the bytes over reads.",
  ["inputs", "fault_sequences"], "all message contents and lengths; all sequences of short reads and writes",
  "The transport tests send a handful of tiny messages that always arrive in one read; they never see a fragmented field, a payload larger than a chunk, or lengths at the limits of the format.",
  ["scalopus_transport/src/protocol.cpp", "scalopus_transport/src/protocol.h"],
  [("protocol::send", "scalopus_transport/src/protocol.cpp"), ("protocol::receive", "scalopus_transport/src/protocol.cpp"), ("protocol::readData", "scalopus_transport/src/protocol.cpp")],
  observe=["bytes written to the socket", "message returned by receive"])

p("C02", "Receive never accepts a truncated message and always makes progress",
  "Receiving a message reports success only if every byte of the message was read from the stream. If the stream ends or the read fails at any byte before the message is complete it reports failure, and it reports failure in no other case; after end of stream it returns instead of looping, and every iteration of its reading loop consumes at least one byte of the message it is reading and never a byte beyond it.",
  ["inputs", "fault_sequences", "crash_points"], "all byte streams, cut off or failing at every position, with every read size",
  "No existing test closes or fails a connection in the middle of a message.",
  ["scalopus_transport/src/protocol.cpp"],
  [("protocol::readData loop", "scalopus_transport/src/protocol.cpp"), ("protocol::receive", "scalopus_transport/src/protocol.cpp")],
  observe=["return value of receive", "number of bytes consumed"])

p("C03", "Ring buffer delivers pushed values in order, exactly once",
  "For a ring buffer over a container of any non-zero size, the values obtained by single and bulk pops are exactly the values successfully pushed, each once and in push order, across any number of wrap-arounds. A rejected push or an empty pop changes nothing, a bulk pop returns min(requested, stored) values, and the reported size equals pushed minus popped; constructing it over an empty container is refused.",
  ["inputs", "histories"], "all capacities, all histories of push/pop/bulk pop",
  "The ring buffer test runs a few fixed capacities and a short history.",
  ["scalopus_tracing/src/spsc_ringbuffer.h"],
  [("SPSCRingBuffer::push/pop/pop_into/size/empty", "scalopus_tracing/src/spsc_ringbuffer.h")],
  state=[("write_index_, read_index_", "positions modulo the container size", "scalopus_tracing/src/spsc_ringbuffer.h")],
  observe=["return values and popped values"])

p("C04", "Ring buffer is safe for one producer and one consumer thread at once",
  "With one thread pushing and another popping concurrently, in every interleaving and under the C++ memory model, the producer never writes a slot that holds an unread value and the consumer only reads slots whose value was completely written before it was published. Whenever a push is rejected the buffer was full (capacity minus one unread values as of some moment during the call), and whenever a pop finds nothing the buffer was empty at some moment during the call.",
  ["schedules"], "all interleavings of one producer and one consumer, all memory-model reorderings permitted by the chosen orderings",
  "A test samples a few interleavings on one strongly ordered CPU.",
  ["scalopus_tracing/src/spsc_ringbuffer.h"],
  [("acquire/release index handshake", "scalopus_tracing/src/spsc_ringbuffer.h")],
  observe=["slot accesses relative to index publication"])

p("C05", "Every response resolves exactly the request it answers",
  "On a connected transport, each request gets an id of its own, and its future is fulfilled at most once, only with the payload of a complete response carrying that request's id and endpoint name; no response that arrives after the request was sent is lost, however quickly it arrives. A response for an abandoned or unknown request disturbs no other request, a request that could not be sent reports an error through its future and leaves nothing pending, and abandoned requests are eventually dropped from the pending set.",
  ["schedules", "inputs", "fault_sequences"], "all interleavings of requesting threads and the worker, all response orders, duplicates and losses",
  "The unix transport test performs a few sequential request/response pairs on a quiet machine.",
  ["scalopus_transport/src/transport_unix.cpp", "scalopus_transport/src/transport_unix.h"],
  [("TransportUnix::request", "scalopus_transport/src/transport_unix.cpp"), ("TransportUnix::work client branch and cleanup", "scalopus_transport/src/transport_unix.cpp")],
  state=[("ongoing_requests_", "pending promises by (endpoint, id), guarded by request_lock_", "scalopus_transport/src/transport_unix.h")],
  observe=["futures returned by request()", "pendingRequests()"])

p("C06", "Servers answer each request once, on its own connection, with its own id",
  "For every request a server receives for an endpoint it has, that endpoint's handler is called once with exactly the received payload, and, if it produces a response, exactly one message carrying the request's id and endpoint name and that response goes to the connection the request came from and to no other. Requests for unknown endpoints, and handlers that fail or produce no response, cause no message and disturb no connection; a connection whose stream broke is closed and forgotten while all others keep being served.",
  ["schedules", "inputs", "histories"], "all sets of connections, all interleavings of requests, all connection failures",
  "Tests use one client at a time and never break a connection mid-message.",
  ["scalopus_transport/src/transport_unix.cpp"],
  [("TransportUnix::processMsg", "scalopus_transport/src/transport_unix.cpp"), ("TransportUnix::work", "scalopus_transport/src/transport_unix.cpp")],
  observe=["messages on each connection", "calls to the endpoint's handler"])

p("C07", "Broadcasts reach every connected client once and in order",
  "Every broadcast queued on a serving transport is eventually taken from the queue exactly once, in the order in which it was queued, and sent exactly once to every client connected at that time and never to the listening socket, as a message with the reserved request id 0 and the given endpoint name and payload. Queueing from any thread is safe at any time and never loses, duplicates or alters another queued broadcast.",
  ["schedules", "histories"], "all numbers of clients and queued broadcasts, all interleavings of queueing and sending",
  "Tests broadcast single messages to a single client.",
  ["scalopus_interface/src/transport.cpp", "scalopus_transport/src/transport_unix.cpp"],
  [("Transport::broadcast/popBroadcast/haveBroadcast", "scalopus_interface/src/transport.cpp"), ("TransportUnix::work broadcast loop", "scalopus_transport/src/transport_unix.cpp")],
  state=[("broadcast_messages_", "queue guarded by broadcast_message_mutex_", "scalopus_interface/include/scalopus_interface/transport.h")],
  observe=["messages received by each client"])

p("C08", "A transport's endpoint registry maps each name to the last endpoint added",
  "After adding an endpoint it can be looked up under the name it reports, replaces any endpoint previously added under that name, leaves every other registration as it was, and the endpoint itself refers to that transport; looking up an unknown name yields nothing and changes nothing. Registration and lookup may be called from any thread while messages are being served.",
  ["histories", "schedules"], "all histories of additions and lookups from any thread",
  "Tests register one or two endpoints before traffic starts.",
  ["scalopus_interface/src/transport.cpp", "scalopus_transport/src/transport_unix.cpp"],
  [("Transport::addEndpoint/getEndpoint/endpoints", "scalopus_interface/src/transport.cpp"), ("TransportUnix::processMsg lookup", "scalopus_transport/src/transport_unix.cpp")],
  state=[("endpoints_", "name to endpoint, guarded by endpoint_mutex_", "scalopus_interface/include/scalopus_interface/transport.h")],
  observe=["getEndpoint(), endpoints()"])

p("C09", "Name and buffer tables behave as one atomic map",
  "The shared tables that map trace ids to names and threads to names or buffers behave like a single map: inserting sets exactly that key (replacing an earlier value), erasing removes exactly that key, clearing removes all, existence and value queries and the returned copy report precisely the current contents, and asking for the value of an absent key raises an out-of-range error and inserts nothing. Every operation is atomic with respect to every other, from any thread.",
  ["histories", "schedules", "inputs"], "all histories of table operations, from any number of threads",
  "Tests insert a few names from one thread.",
  ["scalopus_general/include/scalopus_general/map_tracker.h"],
  [("MapTracker methods under mutex_", "scalopus_general/include/scalopus_general/map_tracker.h")],
  observe=["getMap(), getValue(), exists()"])

p("C10", "Trace enable flags: default on, per-thread independent, restored by scope",
  "Process and thread tracing start enabled; setting either returns its previous value and changes only that flag, never another thread's or the other kind. A scoped configuration sets exactly the chosen flag (process or calling thread) for its lifetime and on destruction puts back the value that flag had before it, so properly nested scopes leave every flag as they found it; a thread's flag exists until that thread exits and is then forgotten.",
  ["histories", "schedules"], "all nestings of scoped settings on any number of threads",
  "The macro tests toggle one flag in one thread.",
  ["scalopus_tracing/src/trace_configurator.cpp", "scalopus_tracing/src/trace_configuration_raii.cpp"],
  [("TraceConfigurator", "scalopus_tracing/src/trace_configurator.cpp"), ("TraceConfigurationRAII", "scalopus_tracing/src/trace_configuration_raii.cpp")],
  observe=["get/setThreadState, get/setProcessState, getThreadMap"])

p("C11", "Tracepoints emit exactly their own event, and only when enabled",
  "A scope entry, scope exit, mark or count call emits one event of exactly that kind, with exactly the given id (and mark level or value), when both the process flag and the calling thread's flag are enabled, and emits nothing when either is disabled. A scoped trace emits its entry on construction and the exit with the same id on destruction.",
  ["inputs", "configurations", "histories"], "all ids, levels, values and flag combinations",
  "The macro tests check that a few macros run; the emitted events are not inspected for the lttng backend.",
  ["scalopus_tracing/src/lttng/lttng_tracepoint.cpp", "scalopus_tracing/src/lttng/scope_tracepoint_lttng.cpp", "scalopus_tracing/src/scope_trace_raii.cpp", "scalopus_tracing/src/native/native_tracepoint.cpp", "scalopus_tracing/src/nop/nop_tracepoint.cpp"],
  [("lttng::scope_entry, scope_exit, mark_event, count_event", "scalopus_tracing/src/lttng/lttng_tracepoint.cpp"), ("TraceRAII", "scalopus_tracing/src/scope_trace_raii.cpp")],
  observe=["events handed to the tracing backend"])

p("C12", "Remote trace configuration changes exactly what was asked and reports it",
  "A remote set command changes the process flag only if the request says so, sets exactly the listed threads that exist to the listed values, and leaves every other flag alone; a get command changes nothing. The reply lists the state of the process and of every known thread after the change.",
  ["inputs", "histories"], "all thread tables and all requested configurations",
  "Not exercised by the stable tests beyond a basic exchange.",
  ["scalopus_tracing/src/endpoint_trace_configurator.cpp"],
  [("EndpointTraceConfigurator::handle", "scalopus_tracing/src/endpoint_trace_configurator.cpp")],
  observe=["flags after handle()", "decoded reply"])

p("C13", "Trace ids resolve to their registered name or a fixed hexadecimal fallback",
  "Resolving a process and trace id yields exactly the name registered for that id in that process, and for any unregistered process or id the text 'Unknown 0x' followed by the id in lower-case hexadecimal. A process asked for its names answers with exactly those registered in it, under its own process id, and answers nothing to any other request, the empty one included; after an update the known names are exactly those of all processes that answered, whatever the others did. A counter name is split at its first slash into counter and series, and a name without a slash belongs to the series 'count'.",
  ["inputs", "histories"], "all mappings, process ids, trace ids, names and answers",
  "A test checks one registered name.",
  ["scalopus_tracing/src/scope_tracing_provider.cpp", "scalopus_tracing/src/endpoint_trace_mapping.cpp"],
  [("ScopeTracingProvider::getScopeName, splitCounterSeriesName, getMapping, updateMapping", "scalopus_tracing/src/scope_tracing_provider.cpp"), ("EndpointTraceMapping::handle, mapping", "scalopus_tracing/src/endpoint_trace_mapping.cpp")],
  observe=["returned names", "answers to requests"])

p("C14", "Trace ids are the standard CRC-32 of their source text",
  "For every byte string of every length the checksum used to form trace ids equals the standard reflected CRC-32 (polynomial 0x04C11DB7, initial value and final xor 0xFFFFFFFF) of the string, and computing it over a string in pieces, feeding each result into the next call, gives the same value as computing it at once.",
  ["inputs"], "all byte strings of all lengths and all ways of splitting them",
  "Tests use the ids but never compare them with the standard for more than incidental strings.",
  ["scalopus_tracing/include/scalopus_tracing/internal/compile_time_crc.hpp"],
  [("crcdetail::compute and its table", "scalopus_tracing/include/scalopus_tracing/internal/compile_time_crc.hpp")],
  observe=["value of the checksum"])

p("C15", "Parsing a trace line never throws and extracts fields exactly",
  "Turning any text line into an event neither throws nor reads outside the line; the event keeps the original line, and parts that are missing are left empty (time zero) instead of taking text of another part. For a well-formed line the time, domain, name and every numeric 'key = value' entry of the three braced groups are exactly the text between the respective delimiters.",
  ["inputs"], "all byte strings as lines, well-formed or not",
  "One unit test parses a few well-formed lines and a few broken ones.",
  ["scalopus_tracing/src/lttng/ctfevent.cpp"],
  [("CTFEvent::CTFEvent", "scalopus_tracing/src/lttng/ctfevent.cpp")],
  observe=["CTFEvent accessors"])

p("C16", "LTTng recordings convert one-to-one into ordered viewer events",
  "A source of the LTTng provider records exactly the events that are read between the start and the end of its interval. Every recorded scalopus event becomes exactly one viewer entry with its own time, process, thread, resolved name and the phase of its kind (begin, end, instant with its level, counter); events of other domains, and events that lack a field needed for this, become none without affecting the others; the entries are ordered by time with equal times in recording order. Each counter entry lists, for every series of that counter of its process seen anywhere in the interval, the most recent value at that point in time, or the first later value when there is no earlier one.",
  ["inputs", "histories"], "all recorded sequences of events",
  "No stable test converts events.",
  ["scalopus_tracing/src/lttng/lttng_source.cpp"],
  [("LttngSource::startInterval/stopInterval/finishInterval", "scalopus_tracing/src/lttng/lttng_source.cpp"), ("LttngSource::convertEvents", "scalopus_tracing/src/lttng/lttng_source.cpp")],
  observe=["entries returned by finishInterval"])

p("C17", "The manager keeps exactly one live transport per reachable process",
  "After a management pass, every discovered destination that could be connected has exactly one connected transport, no second connection is made to a destination that already has one, and every transport that was found dead is dropped together with its endpoints, leaving all others and their endpoints in place. A destination that cannot be connected is skipped without affecting any other, and exactly the remotely offered endpoints for which a local factory exists are created, under their own names.",
  ["histories", "fault_sequences"], "all sequences of processes appearing, dying and refusing connections",
  "Tests connect one or two servers that always answer.",
  ["scalopus_general/src/endpoint_manager_poll.cpp"],
  [("EndpointManagerPoll::manage", "scalopus_general/src/endpoint_manager_poll.cpp"), ("EndpointManagerPoll::connect", "scalopus_general/src/endpoint_manager_poll.cpp")],
  state=[("transports_, transport_endpoints_", "one entry each per live transport, guarded by mutex_", "scalopus_general/include_consumer/scalopus_general/endpoint_manager_poll.h")],
  observe=["endpoints()", "connections made through the factory"])

p("C18", "Transports start, fail and stop without crashing or leaking connections",
  "Serving or connecting either succeeds, with exactly one worker running and the socket owned by the transport, or reports failure; in both cases the transport can be destroyed safely, after which its worker has ended and every socket it opened is closed exactly once. Connecting to a process that does not serve, or to a destination of another kind, yields no transport.",
  ["fault_sequences", "histories"], "failure of any socket call at any point, followed by destruction",
  "Tests only exercise successful set-up.",
  ["scalopus_transport/src/transport_unix.cpp"],
  [("TransportUnix::serve/connect/~TransportUnix", "scalopus_transport/src/transport_unix.cpp"), ("TransportUnixFactory::serve/connect", "scalopus_transport/src/transport_unix.cpp")],
  observe=["process survives", "open descriptors"])

p("C19", "Discovery lists exactly the serving processes",
  "Discovery returns one entry per listening socket of the form '<pid>_scalopus' in the system's socket table, with that pid, and nothing for client ends, other sockets or malformed lines, whatever else the table contains.",
  ["inputs"], "all contents of the socket table",
  "Tests only see the one socket they opened.",
  ["scalopus_transport/src/transport_unix.cpp"],
  [("TransportUnix::getTransportServers", "scalopus_transport/src/transport_unix.cpp")],
  observe=["destinations returned by discover()"])

p("C20", "Loopback transport resolves each request once and survives unknown endpoints",
  "Each request made on a loopback client whose future is still held is handled exactly once by the named endpoint of its server with exactly the given payload, and its future gets exactly that handler's response; a request for an endpoint the server does not have resolves with an error, as does one whose handler fails, and neither crashes nor disturbs other requests. Each broadcast is delivered once, in order, to the named endpoint of every live client.",
  ["schedules", "histories"], "all interleavings of requests, broadcasts and client lifetimes",
  "Tests make one request at a time to existing endpoints.",
  ["scalopus_transport/src/transport_loopback.cpp"],
  [("TransportLoopback::request/work", "scalopus_transport/src/transport_loopback.cpp")],
  observe=["futures, handler calls"])

p("C21", "No buffered trace event is lost when its thread exits",
  "A thread's event buffer is registered exactly once and, when the thread exits, moves to the orphan list exactly once with that thread's id, so that every event pushed before exit is either still in the active table or in the orphan list at any time; retrieving the orphans hands over all of them once and leaves the list empty. Asking for the buffer again from the same thread returns the same buffer.",
  ["schedules", "histories"], "all interleavings of thread start, exit and collection",
  "The native backend's tests are not part of the stable tests.",
  ["scalopus_tracing/src/native/tracepoint_collector_native.cpp"],
  [("TracePointCollectorNative::getBuffer and its thread-exit callback", "scalopus_tracing/src/native/tracepoint_collector_native.cpp"), ("retrieveAndClearOrphanedBuffers", "scalopus_tracing/src/native/tracepoint_collector_native.cpp")],
  observe=["getActiveMap(), retrieveAndClearOrphanedBuffers()"])

p("C22", "A recording session sends every collected event once and in order",
  "Ending a recording sends the acknowledgement, then all collected events of all sources, each exactly once and in collection order, in chunks of at most 1000 events, then the completion message. Every source is stopped before that acknowledgement and collected exactly once, and one that fails to collect its events does not keep those of the others from being sent; starting a recording starts every source once and is acknowledged. Replies carry the id of the message they answer, whatever JSON value that is; messages are answered in the order they came in, and one that is not understood is ignored without ending the session. This holds for every number of events, including none and multiples of the chunk size.",
  ["inputs", "histories"], "all numbers of events and sources",
  "The catapult backend is not part of the stable tests.",
  ["scalopus_catapult/src/trace_session.cpp"],
  [("TraceSession::processMessage/chunkedTransmit/formatEvents", "scalopus_catapult/src/trace_session.cpp")],
  observe=["messages handed to the response function"])

p("C23", "Every parsed line reaches every active recording and no inactive one",
  "While the trace reader runs, each line read is parsed once and passed once to each recording callback that is registered and active, in the order the lines were read; a callback that was disabled is not called again and is dropped without skipping or repeating any other callback.",
  ["histories", "schedules"], "all sequences of lines, registrations and deactivations",
  "No stable test runs the reader.",
  ["scalopus_tracing/src/lttng/babeltrace_parser.cpp"],
  [("BabeltraceParser::process", "scalopus_tracing/src/lttng/babeltrace_parser.cpp")],
  observe=["callback invocations"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
