F = 'scalopus_transport/src/transport_loopback.cpp'
P = ['C20']
def b(name, *ed): return dict(name=name, props=P, kind='bug', edits=list(ed))
def s(name, *ed): return dict(name=name, props=P, kind='same', edits=list(ed))
LOOP = '''      std::lock_guard<decltype(request_lock_)> lock(request_lock_);
      for (auto& req : ongoing_requests_)
      {'''
COPY = '''        std::vector<Transport::WeakPtr> clients;
        {
          // Clients may be added from other threads while we are distributing.
          std::lock_guard<decltype(clients_lock_)> lock(clients_lock_);
          clients = clients_;
        }
'''
UN = '''              Data resp;
              bool respond{ false };
              try
              {'''
M = [
 b('original null endpoint', (F, '          continue;\n        }\n\n        try\n', '        }\n\n        try\n')),
 b('server side null', (F, 'server_ != nullptr ? server_->getEndpoint(remote_endpoint_name) : nullptr', 'server_->getEndpoint(remote_endpoint_name)')),
 b('answer null', (F, 'server_endpoint != nullptr && server_endpoint->handle', 'server_endpoint->handle')),
 b('no clear', (F, '      ongoing_requests_.clear();  // We', '      // We')),
 b('break on missing', (F, '          continue;\n        }\n\n        try\n', '          break;\n        }\n\n        try\n')),
 b('break on stale', (F, '          continue;  // request went stale.', '          break;  // request went stale.')),
 b('response shared', (F, '          Data resp;\n          auto res', '          static Data resp;\n          auto res')),
 b('response hoisted', (F, '      for (auto& req : ongoing_requests_)', '      Data resp;\n      for (auto& req : ongoing_requests_)'), (F, '          Data resp;\n          auto res', '          auto res')),
 b('handle twice', (F, '        if (res)\n', '        if (!res)\n        {\n          res = endpoint->handle(*server_, outgoing, resp);\n        }\n        if (res)\n')),
 b('handler gets this', (F, 'endpoint->handle(*server_, outgoing, resp)', 'endpoint->handle(*this, outgoing, resp)')),
 b('value even if refused', (F, '          if (res)\n          {\n            promise.set_value(resp);\n          }', '          promise.set_value(resp);')),
 b('empty answers dropped', (F, '        if (res)\n', '        if (res && !resp.empty())\n')),
 b('client lock', (F, COPY, COPY.replace('          std::lock_guard<decltype(clients_lock_)> lock(clients_lock_);\n', ''))),
 b('addClient lock', (F, '  std::lock_guard<decltype(clients_lock_)> lock(clients_lock_);\n  clients_.push_back', '  clients_.push_back')),
 b('clients once', (F, COPY, ''), (F, '    // Secondly, we server all the broadcasts\n    {', '    // Secondly, we server all the broadcasts\n    {\n' + COPY)),
 b('first client only', (F, '            if (endpoint != nullptr)\n            {\n', '            if (endpoint != nullptr)\n            {\n', ), (F, UN, UN.replace('Data resp;', 'Data resp;\n              if (weak_client.lock() != clients.front().lock()) { break; }'))),
 b('stop at gone client', (F, '          if (client != nullptr)\n          {', '          if (client == nullptr)\n          {\n            break;\n          }\n          {')),
 b('stop at client without', (F, '            if (endpoint != nullptr)\n            {\n              Data resp', '            if (endpoint == nullptr)\n            {\n              break;\n            }\n            {\n              Data resp')),
 b('stop after answer', (F, '                Data resp2;', '                Data resp2;\n                break;')),
 b('one broadcast dropped', (F, '        auto broadcast = Transport::popBroadcast();', '        auto broadcast = Transport::popBroadcast();\n        if (broadcast.second.empty())\n        {\n          continue;\n        }')),
 b('pop twice', (F, '        const auto& outgoing = broadcast.second;\n', '        if (broadcast.second.empty() && haveBroadcast())\n        {\n          broadcast = Transport::popBroadcast();\n        }\n        const auto& outgoing = broadcast.second;\n')),
 b('broadcast to handle', (F, 'endpoint->unsolicited(*client, outgoing, resp)', 'endpoint->handle(*client, outgoing, resp)')),
 b('server endpoint', (F, 'auto endpoint = client->getEndpoint(remote_endpoint_name);', 'auto endpoint = getEndpoint(remote_endpoint_name);')),
 b('resp shared in broadcast', (F, '        for (const auto& weak_client : clients)', '        Data resp;\n        for (const auto& weak_client : clients)'), (F, UN, UN.replace('              Data resp;\n', ''))),
 b('request unlocked', (F, '  std::lock_guard<decltype(request_lock_)> lock(request_lock_);\n  ongoing_requests_.emplace', '  ongoing_requests_.emplace')),
 b('request empty payload', (F, '  ongoing_requests_.emplace_back(remote', '  if (!ongoing_requests_.empty() && outgoing.empty())\n  {\n    return response;\n  }\n  ongoing_requests_.emplace_back(remote')),
 b('pending count', (F, '  return ongoing_requests_.size();', '  return ongoing_requests_.capacity();')),
 b('connect does not register', (F, '      server->addClient(client);\n', '      if (server->isConnected())\n      {\n        server->addClient(client);\n      }\n')),
 b('registers with client', (F, '      server->addClient(client);', '      client->addClient(server);')),
 b('broadcast only if no request', (F, '      while (haveBroadcast())', '      while (pendingRequests() == 0 && haveBroadcast())')),
 b('starve requests', (F, '    {\n' + LOOP, '    if (!haveBroadcast())\n    {\n' + LOOP)),
 b('expired clients kept dead', (F, '          clients = clients_;', '          clients = std::move(clients_);')),
 s('swap out', (F, LOOP, '''      std::vector<PendingRequest> requests;
      {
        std::lock_guard<decltype(request_lock_)> lock(request_lock_);
        requests.swap(ongoing_requests_);
      }
      for (auto& req : requests)
      {'''), (F, '      ongoing_requests_.clear();  // We processed all requests, we can clear them.\n', '')),
 s('index loop', (F, '      for (auto& req : ongoing_requests_)\n      {', '      for (std::size_t i = 0; i < ongoing_requests_.size(); i++)\n      {\n        auto& req = ongoing_requests_[i];')),
 s('expired()', (F, 'request_ptr.lock() == nullptr', 'request_ptr.expired()')),
 s('else branch', (F, '          continue;\n        }\n\n        try\n        {\n          Data resp;\n          auto res = endpoint->handle(*server_, outgoing, resp);\n          if (res)\n          {\n            promise.set_value(resp);\n          }\n        }\n        catch (const std::exception&)\n        {\n          // The endpoint can\'t handle this data, pass that on instead of ending the worker thread.\n          promise.set_exception(std::current_exception());\n        }', '        }\n        else\n        {\n          try\n          {\n            Data resp;\n            if (endpoint->handle(*server_, outgoing, resp))\n            {\n              promise.set_value(resp);\n            }\n          }\n          catch (...)\n          {\n            promise.set_exception(std::current_exception());\n          }\n        }')),
 s('move response', (F, 'promise.set_value(resp)', 'promise.set_value(std::move(resp))')),
 s('refusal as error', (F, '            promise.set_value(resp);\n          }', '            promise.set_value(resp);\n          }\n          else\n          {\n            promise.set_exception(std::make_exception_ptr(std::runtime_error("refused")));\n          }')),
 s('helper', (F, 'void TransportLoopback::work()', 'static void answer(TransportLoopback& server, Endpoint& endpoint, const Data& in, std::promise<Data>& promise)\n{\n  Data resp;\n  if (endpoint.handle(server, in, resp))\n  {\n    promise.set_value(resp);\n  }\n}\n\nvoid TransportLoopback::work()'), (F, '          Data resp;\n          auto res = endpoint->handle(*server_, outgoing, resp);\n          if (res)\n          {\n            promise.set_value(resp);\n          }', '          answer(*server_, *endpoint, outgoing, promise);')),
 s('clients locked throughout', (F, COPY, '        std::lock_guard<decltype(clients_lock_)> clients_guard(clients_lock_);\n'), (F, 'const auto& weak_client : clients)', 'const auto& weak_client : clients_)')),
 s('early continue', (F, '          if (client != nullptr)\n          {', '          if (client == nullptr)\n          {\n            continue;\n          }\n          {')),
 s('copy clients once per round copy', (F, '        for (const auto& weak_client : clients)\n        {\n          auto client = weak_client.lock();', '        for (std::size_t c = 0; c < clients.size(); ++c)\n        {\n          auto client = clients[c].lock();')),
 s('fields by get', (F, 'const auto& outgoing = broadcast.second;', 'const Data outgoing = std::get<1>(broadcast);')),
 s('request builds first', (F, '  ongoing_requests_.emplace_back(remote_endpoint_name, outgoing, std::move(promise), response);', '  ongoing_requests_.push_back(PendingRequest(remote_endpoint_name, outgoing, std::move(promise), response));')),
 s('connect early out', (F, '  if (loopback_destination != nullptr)\n  {\n    auto server', '  if (loopback_destination == nullptr)\n  {\n    return nullptr;\n  }\n  {\n    auto server')),
 b('catch breaks', (F, '          promise.set_exception(std::current_exception());\n        }', '          promise.set_exception(std::current_exception());\n          break;\n        }')),
 s('catch forgets', (F, '          promise.set_exception(std::current_exception());\n', '')),
 b('catch value', (F, '          promise.set_exception(std::current_exception());\n', '          promise.set_value(Data{});\n')),
 b('only runtime errors', (F, 'catch (const std::exception&)', 'catch (const std::runtime_error&)')),
 b('failed broadcast ends', (F, 'failed on a broadcast: " + e.what());\n', 'failed on a broadcast: " + e.what());\n                break;\n')),
 s('catch all', (F, 'catch (const std::exception&)', 'catch (...)')),
]
