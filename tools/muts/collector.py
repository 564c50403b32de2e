F = 'scalopus_tracing/src/native/tracepoint_collector_native.cpp'
H = 'scalopus_tracing/src/native/tracepoint_collector_native.h'
M = []
def bug(n, *e): M.append(dict(name=n, props=['C21'], kind='bug', edits=[(F, a, b) for a, b in e]))
def same(n, *e): M.append(dict(name=n, props=['C21'], kind='same', edits=[(F, a, b) for a, b in e]))
ORPH = '''            {
              std::lock_guard<std::mutex> lock{ ptr->orphaned_mutex_ };
              ptr->orphaned_tid_buffers_.emplace_back(tid, std::move(buffer));
            }
'''
ER = '          ptr->active_tid_buffers_.erase(tid);\n'
GET = '            auto buffer = ptr->active_tid_buffers_.getValue(tid);\n'
RET = '''  BufferVector tmp;
  std::lock_guard<std::mutex> lock{ orphaned_mutex_ };
  orphaned_tid_buffers_.swap(tmp);
  return tmp;
'''
MK = '''    auto buffer = std::make_shared<tracepoint_collector_types::ScopeBuffer>(
        tracepoint_collector_types::EventContainer{ ringbuffer_size_ });
    active_tid_buffers_.insert(tid, buffer);
    return buffer;
'''
bug('erase first', (ER, ''), (GET, GET + ER))
bug('no erase', (ER, ''))
bug('no orphan', (ORPH, ''))
bug('empty not kept', (ORPH, ORPH.replace('              ptr->orph', '              if (buffer->size() > 1)\n                ptr->orph')))
bug('no orphan lock', (ORPH, ORPH.replace('              std::lock_guard<std::mutex> lock{ ptr->orphaned_mutex_ };\n', '')))
bug('orphan twice', (ORPH, ORPH.replace('std::move(buffer)', 'buffer') + ORPH))
bug('id at exit of other', (ORPH, ORPH.replace('(tid,', '(tid + 1,')))
bug('erase others', (ER, '          ptr->active_tid_buffers_.clear();\n'))
bug('retrieve in two steps', (RET, '''  BufferVector tmp;
  {
    std::lock_guard<std::mutex> lock{ orphaned_mutex_ };
    tmp = orphaned_tid_buffers_;
  }
  std::lock_guard<std::mutex> lock{ orphaned_mutex_ };
  orphaned_tid_buffers_.clear();
  return tmp;
'''))
bug('retrieve copy', (RET, RET.replace('orphaned_tid_buffers_.swap(tmp)', 'tmp = orphaned_tid_buffers_')))
bug('retrieve no lock', (RET, RET.replace('  std::lock_guard<std::mutex> lock{ orphaned_mutex_ };\n', '')))
bug('retrieve last stays', (RET, RET.replace('  return tmp', '  if (tmp.size() > 8)\n  {\n    orphaned_tid_buffers_.push_back(tmp.back());\n    tmp.pop_back();\n  }\n  return tmp')))
bug('retrieve all but empty buffers', (RET, RET.replace('  return tmp', '  if (!tmp.empty() && tmp.back().second->size() == 0)\n    tmp.pop_back();\n  return tmp')))
bug('new buffer each time', ('  if (active_tid_buffers_.exists(tid))\n  {\n    // Buffer', '  if (active_tid_buffers_.exists(tid) && active_tid_buffers_.getValue(tid)->size() == 0)\n  {\n    // Buffer'))
bug('buffer not registered', ('    active_tid_buffers_.insert(tid, buffer);\n', ''))
bug('another buffer registered', ('    active_tid_buffers_.insert(tid, buffer);\n', '    active_tid_buffers_.insert(tid, std::make_shared<tracepoint_collector_types::ScopeBuffer>(tracepoint_collector_types::EventContainer{ ringbuffer_size_ }));\n'))
bug('cleanup static', ('  thread_local auto cleanup', '  static auto cleanup'))
bug('cleanup only of the maker', ('  thread_local auto cleanup', '  if (!active_tid_buffers_.exists(tid) && active_tid_buffers_.getMap().size() > 3)\n  {\n    auto buffer = std::make_shared<tracepoint_collector_types::ScopeBuffer>(tracepoint_collector_types::EventContainer{ ringbuffer_size_ });\n    active_tid_buffers_.insert(tid, buffer);\n    return buffer;\n  }\n  thread_local auto cleanup'))
bug('tid thread local of first', ('  const auto tid = ', '  static const auto tid = '))
bug('cached buffer', ('  if (active_tid_buffers_.exists(tid))\n  {\n    // Buffer', '  static std::shared_ptr<tracepoint_collector_types::ScopeBuffer> last;\n  static unsigned long last_tid = 0;\n  if (last_tid == tid && last != nullptr)\n  {\n    return last;\n  }\n  if (active_tid_buffers_.exists(tid))\n  {\n    last = active_tid_buffers_.getValue(tid);\n    last_tid = tid;\n    // Buffer'))
bug('instance per thread', ('  static TracePointCollectorNative::Ptr instance', '  thread_local TracePointCollectorNative::Ptr instance'))
bug('getActiveMap clears', ('  return active_tid_buffers_.getMap();', '  auto m = active_tid_buffers_.getMap();\n  if (m.size() > 4)\n    m.erase(m.begin());\n  return m;'))
same('swap instead of erase order', (GET, '            const auto tid_copy = tid;\n' + GET.replace('(tid)', '(tid_copy)')))
same('move retrieve', (RET, '''  std::lock_guard<std::mutex> lock{ orphaned_mutex_ };
  BufferVector tmp = std::move(orphaned_tid_buffers_);
  orphaned_tid_buffers_.clear();
  return tmp;
'''))
same('loop retrieve', (RET, '''  BufferVector tmp;
  std::lock_guard<std::mutex> lock{ orphaned_mutex_ };
  tmp.reserve(orphaned_tid_buffers_.size());
  for (auto& b : orphaned_tid_buffers_)
  {
    tmp.emplace_back(b.first, b.second);
  }
  orphaned_tid_buffers_.clear();
  return tmp;
'''))
same('push_back', (ORPH, ORPH.replace('emplace_back(tid, std::move(buffer))', 'push_back({ tid, buffer })')))
same('negated', ('  if (active_tid_buffers_.exists(tid))\n  {\n    // Buffer already existed for this thread.\n    return active_tid_buffers_.getValue(tid);\n  }\n  else\n', '  if (!active_tid_buffers_.exists(tid))\n'), ('    return buffer;\n  }\n  return nullptr;', '    return buffer;\n  }\n  return active_tid_buffers_.getValue(tid);'))
same('erase inside if', (ORPH + '          }\n' + ER, ORPH + '            ptr->active_tid_buffers_.erase(tid);\n          }\n'))
same('getMap lookup', ('    return active_tid_buffers_.getValue(tid);', '    return active_tid_buffers_.getMap().at(tid);'))
same('helper', ('tracepoint_collector_types::ScopeBufferPtr TracePointCollectorNative::getBuffer()\n{', 'static unsigned long self()\n{\n  return static_cast<unsigned long>(pthread_self());\n}\n\ntracepoint_collector_types::ScopeBufferPtr TracePointCollectorNative::getBuffer()\n{'), ('static_cast<unsigned long>(pthread_self());\n  // Reg', 'self();\n  // Reg'))
