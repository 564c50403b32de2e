"""which contracts decide which property, and which harness replays its violations"""
PROPS = {
    'C01': dict(mod='protocol', run='c01', harness='protocol'),
    'C02': dict(mod='protocol', run='c02', harness='protocol'),
    'C03': dict(mod='ringbuffer', run='c03', harness='ringbuffer'),
    'C04': dict(mod='ringbuffer', run='c04', harness='ringbuffer'),
    'C05': dict(mod='transport_unix', run='c05', harness='transport'),
    'C06': dict(mod='transport_unix', run='c06', harness='transport'),
    'C07': dict(mod='transport_unix', run='c07', harness='transport'),
    'C08': dict(mod='transport_unix', run='c08', harness='transport_reg'),
    'C18': dict(mod='lifecycle', run='c18', harness='transport'),
    'C10': dict(mod='trace_config', run='c10', harness='trace_config'),
    'C11': dict(mod='tracepoints', run='c11', harness=['tracepoints', 'tracepoints_native']),
    'C12': dict(mod='remote_config', run='c12', harness='remote_config'),
    'C13': dict(mod='scope_names', run='c13', harness='scope_names'),
    'C17': dict(mod='manager', run='c17', harness='manager'),
    'C20': dict(mod='loopback', run='c20', harness='loopback'),
    'C23': dict(mod='babeltrace', run='c23', harness='babeltrace'),
    'C15': dict(mod='ctfevent', run='c15', harness='ctfevent'),
    'C16': dict(mod='lttng_source', run='c16', harness='lttng_source', standin='LttngSource::convertEvents: bounded cases of the harness'),
    'C22': dict(mod='trace_session', run='c22', harness='trace_session'),
    'C21': dict(mod='collector', run='c21', harness='collector'),
    'C19': dict(mod='discovery', run='c19', harness='discovery'),
    'C14': dict(mod='crc', run='c14', harness='crc'),
    'C09': dict(mod='map_tracker', run='c09', harness='map_tracker'),
}
TSRC = ['scalopus_transport/src/transport_unix.cpp', 'scalopus_transport/src/protocol.cpp', 'scalopus_interface/src/transport.cpp', 'scalopus_interface/src/endpoint.cpp', 'scalopus_interface/src/transport_factory.cpp', 'scalopus_interface/src/destination.cpp']
T = 'scalopus_tracing/src/'
HARNESS = {
    'protocol': dict(srcs=['scalopus_transport/src/protocol.cpp']),
    # clang: its ThreadSanitizer copes with the address layout of the sandbox
    'transport': dict(srcs=TSRC),
    'transport_reg': dict(srcs=TSRC, cxx='clang++', flags=['-fsanitize=thread']),
    'ringbuffer': dict(cxx='clang++', flags=['-fsanitize=thread']),
    'trace_config': dict(srcs=['scalopus_tracing/src/trace_configurator.cpp', 'scalopus_tracing/src/trace_configuration_raii.cpp'], cxx='clang++', flags=['-fsanitize=thread']),
    'tracepoints': dict(srcs=[T + x for x in ('trace_configurator.cpp', 'trace_configuration_raii.cpp', 'scope_trace_raii.cpp', 'static_string_tracker.cpp', 'lttng/lttng_tracepoint.cpp', 'lttng/scope_tracepoint_lttng.cpp')], flags=['-I/verif/stubs/lttng_ust']),
    'collector': dict(srcs=[T + 'native/tracepoint_collector_native.cpp'], libs=['-ldl']),
    'tracepoints_native': dict(srcs=[T + x for x in ('trace_configurator.cpp', 'trace_configuration_raii.cpp', 'scope_trace_raii.cpp', 'static_string_tracker.cpp', 'native/native_tracepoint.cpp', 'native/scope_tracepoint_native.cpp', 'native/tracepoint_collector_native.cpp')]),
    'scope_names': dict(srcs=['scalopus_tracing/src/scope_tracing_provider.cpp', 'scalopus_tracing/src/endpoint_trace_mapping.cpp', 'scalopus_tracing/src/static_string_tracker.cpp', 'scalopus_interface/src/transport.cpp', 'scalopus_interface/src/endpoint.cpp']),
    'remote_config': dict(srcs=[T + x for x in ('endpoint_trace_configurator.cpp', 'trace_configurator.cpp')] + ['scalopus_interface/src/transport.cpp', 'scalopus_interface/src/endpoint.cpp']),
    'loopback': dict(srcs=['scalopus_transport/src/transport_loopback.cpp'] + TSRC[2:], cxx='clang++', flags=['-fsanitize=thread']),
    'manager': dict(srcs=['scalopus_general/src/endpoint_manager_poll.cpp', 'scalopus_general/src/endpoint_introspect.cpp'] + TSRC[2:]),
    'babeltrace': dict(srcs=[T + x for x in ('lttng/babeltrace_parser.cpp', 'lttng/ctfevent.cpp')], cxx='clang++', flags=['-fsanitize=thread']),
    'ctfevent': dict(srcs=[T + 'lttng/ctfevent.cpp'], flags=['-fsanitize=address,undefined', '-fno-sanitize-recover=all']),
    'discovery': dict(srcs=TSRC),
    'lttng_source': dict(srcs=[T + x for x in ('lttng/lttng_source.cpp', 'lttng/lttng_provider.cpp', 'lttng/babeltrace_tool.cpp', 'lttng/babeltrace_parser.cpp', 'lttng/ctfevent.cpp', 'scope_tracing_provider.cpp', 'endpoint_trace_mapping.cpp', 'static_string_tracker.cpp')] + ['scalopus_interface/src/trace_event_source.cpp', 'scalopus_interface/src/transport.cpp', 'scalopus_interface/src/endpoint.cpp']),
    'trace_session': dict(srcs=['scalopus_catapult/src/trace_session.cpp', 'scalopus_interface/src/trace_event_source.cpp'], cxx='clang++', flags=['-fsanitize=thread']),
    'crc': dict(),
    'map_tracker': dict(cxx='clang++', flags=['-fsanitize=thread']),
}
