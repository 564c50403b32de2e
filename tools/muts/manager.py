F = 'scalopus_general/src/endpoint_manager_poll.cpp'
I = 'scalopus_general/src/endpoint_introspect.cpp'
P = ['C17']
def b(name, *ed): return dict(name=name, props=P, kind='bug', edits=list(ed))
def s(name, *ed): return dict(name=name, props=P, kind='same', edits=list(ed))
FIND = '''      transport_endpoints_.erase(std::find_if(transport_endpoints_.begin(), transport_endpoints_.end(),
                                              [&](const auto& v) { return v.first == transport.second; }));'''
LOOP = '''  const auto current_transports = transports_;

  // Clean up transports that have died on us.
  for (const auto& transport : current_transports)
  {
    if (!transport.second->isConnected())
    {
      log("[scalopus] Cleaning up transport to: " + std::to_string(transport.first));
      transports_.erase(transport.first);
''' + FIND + '''
    }
  }
'''
PROV = '''  for (const auto& destination : providers)
  {
    connect(destination);
  }'''
TRY = '''  try
  {
    supported = introspect_client->supported();
  }
  catch (const std::exception& e)
  {
    // The connection got lost or the answer is not usable, this must not affect the other destinations.
    log("[scalopus] Failed to introspect " + std::string(*destination) + ": " + e.what());
  }
'''
SETT = '''  transports_[destination->hash_code()] = transport;
  transport_endpoints_[transport] = {};
'''
M = [
 b('null transport', (F, 'transport == nullptr || !transport->isConnected()', '!transport->isConnected()')),
 b('throws', (F, TRY, '  supported = introspect_client->supported();\n')),
 b('keeps unconnected', (F, '    log("[scalopus] Client failed to connect to " + std::string(*destination));\n    return;', '    log("[scalopus] Client failed to connect to " + std::string(*destination));\n    if (transport == nullptr) return;')),
 b('entry before check', (F, '  if (transport == nullptr || !transport', '  transports_[destination->hash_code()] = transport;\n  if (transport == nullptr || !transport')),
 b('endpoints stay', (F, FIND, '')),
 b('transport stays', (F, '      transports_.erase(transport.first);\n', '')),
 b('erase begin', (F, FIND, '      transport_endpoints_.erase(transport_endpoints_.begin());')),
 b('erase not found', (F, 'return v.first == transport.second;', 'return v.first == transport.second && !v.second.empty();')),
 b('clear all', (F, FIND, '      transport_endpoints_.clear();')),
 b('only first dead', (F, FIND, FIND + '\n      break;')),
 b('stop at alive', (F, '    if (!transport.second->isConnected())\n    {', '    if (transport.second->isConnected())\n    {\n      break;\n    }\n    {')),
 b('no double check', (F, '  if (transports_.find(destination->hash_code()) != transports_.end())\n  {\n    return;  // already have a connection to this transport, ignore it.\n  }\n', '')),
 b('connect only new process', (F, PROV, '  for (const auto& destination : providers)\n  {\n    if (current_transports.find(destination->hash_code()) == current_transports.end())\n    {\n      connect(destination);\n    }\n  }')),
 b('connect one', (F, PROV, '  for (const auto& destination : providers)\n  {\n    connect(destination);\n    break;\n  }')),
 b('skip last', (F, PROV, '  for (std::size_t i = 0; i + 1 < providers.size(); i++)\n  {\n    connect(providers[i]);\n  }')),
 b('stop at failure', (F, PROV, '  for (const auto& destination : providers)\n  {\n    const auto before = transports_.size();\n    connect(destination);\n    if (transports_.size() == before) break;\n  }')),
 b('connect before cleaning', (F, PROV, ''), (F, '  // Try to make new connections and setup the endpoints.\n  const auto providers = factory_->discover();\n', ''), (F, '  const auto current_transports = transports_;\n', '  const auto providers = factory_->discover();\n' + PROV + '\n  const auto current_transports = transports_;\n')),
 b('no lock in manage', (F, 'void EndpointManagerPoll::manage()\n{\n  std::lock_guard<std::mutex> lock(mutex_);\n', 'void EndpointManagerPoll::manage()\n{\n')),
 b('no lock in endpoints', (F, 'EndpointManagerPoll::endpoints() const\n{\n  std::lock_guard<std::mutex> lock(mutex_);\n', 'EndpointManagerPoll::endpoints() const\n{\n')),
 b('no lock in addEndpointFactory', (F, 'EndpointFactory&& factory_function)\n{\n  std::lock_guard<std::mutex> lock(mutex_);\n', 'EndpointFactory&& factory_function)\n{\n')),
 b('null endpoint kept', (F, '      if (new_endpoint != nullptr)\n', '      if (new_endpoint != nullptr || supported.size() > 3)\n')),
 b('break on unknown', (F, '      log("[scalopus] remote supports endpoint we don\'t support: " + supported_endpoint);', '      break;')),
 b('return on null', (F, '        log("[scalopus] Factory for " + std::string{ supported_endpoint } + " returned nullptr");', '        return;')),
 b('under own name', (F, 'transport_endpoints_[transport][supported_endpoint] = new_endpoint;', 'transport_endpoints_[transport][it == endpoint_factories_.begin() ? std::string("introspect") : supported_endpoint] = new_endpoint;')),
 b('not registered', (F, '        transport->addEndpoint(new_endpoint);\n', '')),
 b('not registered for one', (F, '        transport->addEndpoint(new_endpoint);\n', '        if (transport_endpoints_[transport].size() > 1 || supported.size() == 1) transport->addEndpoint(new_endpoint);\n')),
 b('same factory', (F, 'endpoint_factories_[supported_endpoint](transport)', 'endpoint_factories_.begin()->second(transport)')),
 b('wrong transport', (F, SETT, SETT + '  transport_endpoints_.begin()->second.clear();\n')),
 b('wrong hash', (F, '  transports_[destination->hash_code()] = transport;', '  transports_[destination->hash_code() & 0xffffffff] = transport;')),
 b('all local factories', (F, '  for (const auto& supported_endpoint : supported)\n', '  if (supported.empty())\n  {\n    for (const auto& f : endpoint_factories_)\n    {\n      supported.push_back(f.first);\n    }\n  }\n  for (const auto& supported_endpoint : supported)\n')),
 b('offered drop last', (F, '  for (const auto& supported_endpoint : supported)\n', '  if (supported.size() > 4)\n  {\n    supported.pop_back();\n  }\n  for (const auto& supported_endpoint : supported)\n')),
 b('factory emplace', (F, '  endpoint_factories_[name] = std::move(factory_function);', '  endpoint_factories_.emplace(name, std::move(factory_function));')),
 b('returns on exception', (F, 'std::string(*destination) + ": " + e.what());\n', 'std::string(*destination) + ": " + e.what());\n    transports_.erase(destination->hash_code());\n    return;\n')),
 b('supported twice request', (I, '  auto future_ptr = transport_->request(name, {});\n', '  auto future_ptr = transport_->request(name, {});\n  future_ptr = transport_->request(name, {});\n')),
 b('supported wrong name', (I, 'transport_->request(name, {})', 'transport_->request("introspection", {})')),
 b('handle size', (I, 'std::vector<std::string> names{ endpoints.size() };', 'std::vector<std::string> names{ endpoints.size() + 1 };')),
 b('handle skips', (I, 'std::transform(endpoints.begin(), endpoints.end()', 'std::transform(std::next(endpoints.begin(), endpoints.empty() ? 0 : 1), endpoints.end()')),
 b('handle key', (I, 'jdata["endpoints"] = names;', 'jdata["endpoint"] = names;')),
 b('handle false', (I, '  response = json::to_bson(jdata);\n  return true;', '  response = json::to_bson(jdata);\n  return !names.empty();')),
 b('no transport', (I, 'transport_ == nullptr', 'false')),
 s('drop on exception', (F, 'std::string(*destination) + ": " + e.what());\n', 'std::string(*destination) + ": " + e.what());\n    transports_.erase(destination->hash_code());\n    transport_endpoints_.erase(transport);\n    return;\n')),
 s('erase by key', (F, FIND, '      transport_endpoints_.erase(transport.second);')),
 s('find then erase', (F, FIND, '      const auto it = transport_endpoints_.find(transport.second);\n      if (it != transport_endpoints_.end())\n      {\n        transport_endpoints_.erase(it);\n      }')),
 s('iterator loop', (F, LOOP, '''  for (auto it = transports_.begin(); it != transports_.end();)
  {
    if (!it->second->isConnected())
    {
      log("[scalopus] Cleaning up transport to: " + std::to_string(it->first));
      transport_endpoints_.erase(it->second);
      it = transports_.erase(it);
    }
    else
    {
      ++it;
    }
  }
''')),
 s('index loop', (F, PROV, '  for (std::size_t i = 0; i < providers.size(); i++)\n  {\n    connect(providers[i]);\n  }')),
 s('count', (F, 'transports_.find(destination->hash_code()) != transports_.end()', 'transports_.count(destination->hash_code()) != 0')),
 s('hash once', (F, '  if (transports_.find(destination->hash_code()) != transports_.end())', '  const auto hash = destination->hash_code();\n  if (transports_.find(hash) != transports_.end())'), (F, '  transports_[destination->hash_code()] = transport;', '  transports_[hash] = transport;')),
 s('use it', (F, 'endpoint_factories_[supported_endpoint](transport)', 'it->second(transport)')),
 s('early continue', (F, '    if (it != endpoint_factories_.end())\n    {', '    if (it == endpoint_factories_.end())\n    {\n      log("[scalopus] remote supports endpoint we don\'t support: " + supported_endpoint);\n      continue;\n    }\n    {'), (F, '    else\n    {\n      log("[scalopus] remote supports endpoint we don\'t support: " + supported_endpoint);\n    }\n', '')),
 s('local map', (F, '  for (const auto& supported_endpoint : supported)\n', '  auto& own = transport_endpoints_[transport];\n  for (const auto& supported_endpoint : supported)\n'), (F, '        transport_endpoints_[transport][supported_endpoint] = new_endpoint;', '        own[supported_endpoint] = new_endpoint;')),
 s('unique_lock', (F, 'void EndpointManagerPoll::manage()\n{\n  std::lock_guard<std::mutex> lock(mutex_);\n', 'void EndpointManagerPoll::manage()\n{\n  std::unique_lock<std::mutex> lock(mutex_);\n')),
 s('emplace transport', (F, SETT, '  transports_.emplace(destination->hash_code(), transport);\n  transport_endpoints_.emplace(transport, EndpointMap{});\n')),
 s('statement', (F, '  log("[scalopus] Creating transport to: " + std::string(*destination));\n', '  int unused = 0;\n  (void)unused;\n  log("[scalopus] Creating transport to: " + std::string(*destination));\n')),
 s('names push', (I, '''  std::vector<std::string> names{ endpoints.size() };
  std::transform(endpoints.begin(), endpoints.end(), names.begin(),
                 [](const auto& name_ptr) { return name_ptr.first; });
''', '''  std::vector<std::string> names;
  for (const auto& name_ptr : endpoints)
  {
    names.push_back(name_ptr.first);
  }
''')),
 s('back inserter', (I, 'std::vector<std::string> names{ endpoints.size() };', 'std::vector<std::string> names;\n  names.reserve(endpoints.size());'), (I, 'names.begin(),', 'std::back_inserter(names),'), (I, '#include <nlohmann', '#include <algorithm>\n#include <iterator>\n#include <nlohmann')),
 s('early return', (I, '''  if (future_ptr->wait_for(std::chrono::milliseconds(200)) == std::future_status::ready)
  {
    json jdata = json::from_bson(future_ptr->get());  // This line may throw
    return jdata["endpoints"].get<std::vector<std::string>>();
  }

  return {};''', '''  if (future_ptr->wait_for(std::chrono::milliseconds(200)) != std::future_status::ready)
  {
    return {};
  }
  const json jdata = json::from_bson(future_ptr->get());  // This line may throw
  return jdata.at("endpoints").get<std::vector<std::string>>();''')),
 s('helper', (F, 'void EndpointManagerPoll::connect(const Destination::Ptr destination)\n{', '''static bool usable(const Transport::Ptr& transport)
{
  return transport != nullptr && transport->isConnected();
}

void EndpointManagerPoll::connect(const Destination::Ptr destination)
{'''), (F, 'transport == nullptr || !transport->isConnected()', '!usable(transport)')),
]
