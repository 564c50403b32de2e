C = 'scalopus_tracing/src/trace_configurator.cpp'
R = 'scalopus_tracing/src/trace_configuration_raii.cpp'
D = 'scalopus_general/include/scalopus_general/destructor_callback.h'
P = ['C10']
def b(name, *ed): return dict(name=name, props=P, kind='bug', edits=list(ed))
def s(name, *ed): return dict(name=name, props=P, kind='same', edits=list(ed))
TAIL = '''  std::lock_guard<decltype(threads_map_mutex_)> lock(threads_map_mutex_);
  auto it = thread_state_.find(tid);
  if (it != thread_state_.end())
  {
    return thread_state_[tid];  // atomic bool already existed.
  }
  else
  {
    auto boolean = std::make_shared<std::atomic_bool>(true);  // default each thread to enabled.
    thread_state_[tid] = boolean;
    return boolean;
  }
  return nullptr;
'''
M = [
 b('process default off', (C, 'std::make_shared<std::atomic_bool>(true);  // default to', 'std::make_shared<std::atomic_bool>(false);  // default to')),
 b('thread default from process', (C, 'std::make_shared<std::atomic_bool>(true);  // default each', 'std::make_shared<std::atomic_bool>(process_state_->load());  // default each')),
 b('set not exchange', (C, 'return getThreadStatePtr()->exchange(new_state);', 'getThreadStatePtr()->store(new_state); return new_state;')),
 b('set process load+store', (C, 'return process_state_->exchange(new_state);', 'bool old = process_state_->load(); process_state_->store(new_state); return old;')),
 b('set thread load+store', (C, 'return getThreadStatePtr()->exchange(new_state);', 'bool old = getThreadState(); *getThreadStatePtr() = new_state; return old;')),
 b('set thread sets process when off', (C, 'return getThreadStatePtr()->exchange(new_state);', 'if (!new_state && thread_state_.size() == 1) process_state_->store(false);\n  return getThreadStatePtr()->exchange(new_state);')),
 b('thread exit keeps entry', (C, '      ptr->removeThread(tid);', '      ')),
 b('exit disables instead', (C, '  thread_state_.erase(thread_id);', '  thread_state_[thread_id]->store(false);')),
 b('exit clears when many', (C, '  thread_state_.erase(thread_id);', '  if (thread_state_.size() > 3) thread_state_.clear(); else thread_state_.erase(thread_id);')),
 b('remove without lock', (C, '''  std::lock_guard<decltype(threads_map_mutex_)> lock(threads_map_mutex_);
  thread_state_.erase(thread_id);''', '  thread_state_.erase(thread_id);')),
 b('static cleanup', (C, 'thread_local auto cleanup', 'static auto cleanup')),
 b('temporary cleanup', (C, 'thread_local auto cleanup', 'auto cleanup')),
 b('tid truncated', (C, '  auto tid = static_cast<unsigned long>(pthread_self());', '  auto tid = static_cast<unsigned long>(static_cast<unsigned int>(pthread_self()) & 0xffffff00u);')),
 b('map no lock', (C, '''  std::lock_guard<decltype(threads_map_mutex_)> lock(threads_map_mutex_);
  return thread_state_;''', '  return thread_state_;')),
 b('map only disabled', (C, '  return thread_state_;', '  auto m = thread_state_; if (m.size() > 8) m.erase(m.begin()); return m;')),
 b('raii restores negation', (R, 'setProcessState(previous_state_);', 'setProcessState(!previous_state_);')),
 b('raii restores always true', (R, 'configurator->setThreadState(previous_state_);', 'configurator->setThreadState(true);')),
 b('raii swapped dtor', (R, '    configurator->setThreadState(previous_state_);', '    configurator->setProcessState(previous_state_);')),
 b('raii only when changed', (R, '''  if (is_process_)
  {
    configurator->setProcessState(previous_state_);''', '''  if (is_process_)
  {
    if (configurator->getProcessState()) configurator->setProcessState(previous_state_);''')),
 b('raii ctor reads after', (R, 'previous_state_ = configurator->setProcessState(new_state);', 'configurator->setProcessState(new_state); previous_state_ = configurator->getProcessState();')),
 b('raii thread enabled by process', (R, 'previous_state_ = configurator->setThreadState(new_state);', 'previous_state_ = configurator->setThreadState(new_state && configurator->getProcessState());')),
 b('thread replaced if off', (C, 'if (it != thread_state_.end())', 'if (it != thread_state_.end() && it->second->load())')),
 s('R destructor callback called twice', (D, '  ~DestructorCallbackImpl()\n  {\n    destroyer();', '  ~DestructorCallbackImpl()\n  {\n    destroyer();\n    destroyer();')),
 b('weak instance shared per thread', (C, 'static TraceConfigurator::Ptr instance{', 'thread_local TraceConfigurator::Ptr instance{')),
 s('R find result', (C, 'return thread_state_[tid];  //', 'return it->second;  //')),
 s('R emplace', (C, TAIL, '''  std::lock_guard<std::mutex> guard(threads_map_mutex_);
  auto& entry = thread_state_[tid];
  if (!entry)
  {
    entry = std::make_shared<std::atomic_bool>(true);
  }
  return entry;
''')),
 s('R count', (C, TAIL, '''  std::unique_lock<std::mutex> guard(threads_map_mutex_);
  if (thread_state_.count(tid) == 0)
  {
    thread_state_.emplace(tid, std::make_shared<std::atomic_bool>(true));
  }
  return thread_state_.at(tid);
''')),
 s('R insert early return', (C, TAIL, '''  std::lock_guard<std::mutex> guard(threads_map_mutex_);
  const auto it = thread_state_.find(tid);
  if (it == thread_state_.end())
  {
    auto fresh = std::make_shared<std::atomic_bool>(true);
    thread_state_.insert(std::make_pair(tid, fresh));
    return fresh;
  }
  return it->second;
''')),
 s('R load', (C, 'return *getThreadStatePtr();', 'return getThreadStatePtr()->load();'), (C, 'return *process_state_;', 'const auto flag = getProcessStatePtr();\n  return flag->load();')),
 s('R init list', (C, '''TraceConfigurator::TraceConfigurator()
{
  process_state_ = std::make_shared<std::atomic_bool>(true);  // default to enabled.''', '''TraceConfigurator::TraceConfigurator() : process_state_(std::make_shared<std::atomic_bool>(true))
{''')),
 s('R raii ternary', (R, '''  if (is_process_)
  {
    previous_state_ = configurator->setProcessState(new_state);
  }
  else
  {
    previous_state_ = configurator->setThreadState(new_state);
  }''', '''  previous_state_ = is_process_ ? configurator->setProcessState(new_state) : configurator->setThreadState(new_state);''')),
 s('R raii helper', (R, '''namespace scalopus
{
''', '''namespace scalopus
{
static bool exchangeState(bool process, bool state)
{
  auto configurator = TraceConfigurator::getInstance();
  if (!process)
  {
    return configurator->setThreadState(state);
  }
  return configurator->setProcessState(state);
}
'''), (R, '''  TraceConfigurator::Ptr configurator = TraceConfigurator::getInstance();
  if (is_process_)
  {
    previous_state_ = configurator->setProcessState(new_state);
  }
  else
  {
    previous_state_ = configurator->setThreadState(new_state);
  }''', '  previous_state_ = exchangeState(is_process_, new_state);'), (R, '''  TraceConfigurator::Ptr configurator = TraceConfigurator::getInstance();
  if (is_process_)
  {
    configurator->setProcessState(previous_state_);
  }
  else
  {
    configurator->setThreadState(previous_state_);
  }''', '  exchangeState(is_process_, previous_state_);')),
 s('R removeThread find', (C, '  thread_state_.erase(thread_id);', '''  auto it = thread_state_.find(thread_id);
  if (it != thread_state_.end())
  {
    thread_state_.erase(it);
  }''')),
 s('R copy of map', (C, '  return thread_state_;', '  std::map<unsigned long, AtomicBoolPtr> copy = thread_state_;\n  return copy;')),
 s('R cleanup early return', (C, '''    auto ptr = instance.lock();
    if (ptr != nullptr)
    {
      ptr->removeThread(tid);
    }''', '''    if (auto ptr = instance.lock())
    {
      ptr->removeThread(tid);
    }''')),
 s('R exchange order', (C, 'return process_state_->exchange(new_state);', 'return process_state_->exchange(new_state, std::memory_order_acq_rel);')),
]
