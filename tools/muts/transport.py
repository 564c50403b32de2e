F = 'scalopus_transport/src/transport_unix.cpp'
T = 'scalopus_interface/src/transport.cpp'
def b(name, props, *edits): return dict(name=name, props=props, kind='bug', edits=[e if len(e) == 3 else (F,) + e for e in edits])
def r(name, props, *edits): return dict(name=name, props=props, kind='same', edits=[e if len(e) == 3 else (F,) + e for e in edits])
STORE = """  {
    // Store the promise in the map before sending, the response may arrive before send returns.
    std::lock_guard<std::mutex> lock(request_lock_);
    ongoing_requests_[{ remote_endpoint_name, request_id }] = { std::move(promise), response };
  }
"""
SEND = """  bool sent{ false };
  {
    std::lock_guard<std::mutex> lock(write_lock_);
    sent = protocol::send(client_fd_, outgoing_msg);
  }
"""
ALL = ['C05', 'C06', 'C07', 'C08', 'C18']
BC = """      for (const auto& connection : connections_)
      {
        if (connection == server_fd_)
        {
          continue;
        }
        std::lock_guard<std::mutex> wlock(write_lock_);
        protocol::send(connection, broadcast);
      }
"""
CLEAN = """      for (auto it = ongoing_requests_.begin(); it != ongoing_requests_.end();)
      {
        if (it->second.second.expired())
        {
          // request went out of scope.
          it = ongoing_requests_.erase(it);
        }
        else
        {
          it++;
        }
      }
"""
M = [
 b('store after send', ['C05'], (STORE, ""), (SEND, SEND + STORE)),
 b('store after successful send', ['C05'], (STORE, ""), (SEND, SEND + "if (sent)\n" + STORE)),
 b('store without lock', ['C05'], ("    std::lock_guard<std::mutex> lock(request_lock_);\n    ongoing_requests_[{", "    ongoing_requests_[{")),
 b('failed send keeps entry', ['C05'], ("      ongoing_requests_.erase(request_it);\n    }\n  }\n  return", "    }\n  }\n  return")),
 b('failed send leaves pending', ['C05'], ("      request_it->second.first.set_exception(std::make_exception_ptr(communication_error(\"Failed to send data.\")));\n", "")),
 b('match by id only', ['C05'], ("auto request_it = ongoing_requests_.find({ incoming.endpoint, incoming.request_id });\n      if", "auto request_it = std::find_if(ongoing_requests_.begin(), ongoing_requests_.end(), [&](const auto& x) { return x.first.second == incoming.request_id; });\n      if")),
 r('R id 0 is broadcast', ['C05'], ("      if (request_it != ongoing_requests_.end())\n      {\n        auto ptr", "      if (incoming.request_id != 0 && request_it != ongoing_requests_.end())\n      {\n        auto ptr")),
 b('id wraps at 16 bit', ['C05'], ("size_t request_id = request_counter_++;", "size_t request_id = (request_counter_++) & 0xffff;")),
 b('erase missing', ['C05'], ("        ongoing_requests_.erase(request_it);  // remove", "        //")),
 b('cleanup inverted', ['C05'], ("if (it->second.second.expired())", "if (!it->second.second.expired())")),
 b('cleanup misses last', ['C05'], (CLEAN, CLEAN.replace("it != ongoing_requests_.end();", "std::next(it) != ongoing_requests_.end() && it != ongoing_requests_.end();"))),
 b('cleanup erases all when one', ['C05'], ("          it = ongoing_requests_.erase(it);", "          ongoing_requests_.clear();\n          break;")),
 b('no lock around cleanup', ['C05'], ("      // clean up any dropped requests.\n      std::lock_guard<std::mutex> lock(request_lock_);\n", "")),
 b('set value twice data', ['C05'], ("set_value(incoming.data);", "set_value(incoming.data.empty() ? Data{ 0 } : incoming.data);")),
 b('incomplete resolves', ['C05'], ("        continue;  // whatever was read", "        //")),
 b('send without write lock', ['C05'], ("    std::lock_guard<std::mutex> lock(write_lock_);\n    sent =", "    sent =")),
 b('pending no lock', ['C05'], ("  std::lock_guard<std::mutex> lock(request_lock_);\n  return ongoing_requests_.size();", "  return ongoing_requests_.size();")),
 # C06
 b('reply to wrong connection', ['C06'], ("protocol::send(connection, response);", "protocol::send(*copy_of_connections.rbegin(), response);")),
 b('reply without id', ['C06'], ("  response.request_id = request.request_id;\n  // Check", "  // Check")),
 b('reply even when false', ['C06'], ("          if (processMsg(request, response))\n", "          processMsg(request, response);\n          if (!response.data.empty())\n")),
 b('no reply for empty', ['C06'], ("          if (processMsg(request, response))\n", "          if (processMsg(request, response) && !response.data.empty())\n")),
 b('shared response buffer', ['C06'], ("    // else; check everything.\n", "    // else; check everything.\n    protocol::Msg response;\n"), ("          protocol::Msg response;\n          if (processMsg", "          if (processMsg")),
 b('close twice', ['C06', 'C18'], ("          continue;  // this connection is gone, don't close it again below.\n", "")),
 b('close without erase', ['C06', 'C18'], ("          ::close(connection);\n          connections_.erase(connection);\n          continue;", "          ::close(connection);\n          continue;")),
 b('erase without close', ['C18'], ("          ::close(connection);\n          connections_.erase(connection);\n          continue;", "          connections_.erase(connection);\n          continue;")),
 b('broken connection stops the pass', ['C06'], ("          continue;  // this connection is gone", "          break;  // this connection is gone")),
 b('one request per pass', ['C06'], ("            protocol::send(connection, response);\n          }", "            protocol::send(connection, response);\n            break;\n          }")),
 b('select error proceeds', ['C06'], ("      continue;  // the sets are unspecified now", "      //")),
 b('accept error continue', ['C06'], ("""logger_("[TransportUnix] Could not accept client.");""", """logger_("[TransportUnix] Could not accept client.");\n        continue;""")),
 b('accept inserts on -1', ['C06', 'C18'], ("      if (client == -1)\n", "      if (client < -1)\n")),
 b('accept does not insert', ['C06'], ("        connections_.insert(client);\n", "        if (connections_.size() < 64) connections_.insert(client);\n")),
 b('fail of one ends worker', ['C06'], ("          connections_.erase(connection);\n          continue;", "          connections_.erase(connection);\n          running_ = connections_.size() > 1;\n          continue;")),
 b('listener read as client', ['C06'], ("if ((connection == server_fd_) || (connection == client_fd_))", "if (connection == client_fd_)")),
 b('client fd in server loop', ['C05', 'C06'], ("if ((connection == server_fd_) || (connection == client_fd_))", "if (connection == server_fd_)")),
 b('not in except set closes', ['C06'], ("      if (FD_ISSET(connection, &except_fds))", "      if (!FD_ISSET(connection, &except_fds) && !FD_ISSET(connection, &read_fds))")),
 b('send no lock reply', ['C06'], ("            std::lock_guard<std::mutex> wlock(write_lock_);\n            protocol::send(connection, response);", "            protocol::send(connection, response);")),
 b('max element', ['C06'], ("*std::max_element(connections_.begin(), connections_.end()) + 1", "*std::max_element(connections_.begin(), connections_.end())")),
 # C07
 b('lifo', ['C07'], (T, "std::move(broadcast_messages_.front());\n  broadcast_messages_.erase(broadcast_messages_.begin());", "std::move(broadcast_messages_.back());\n  broadcast_messages_.pop_back();")),
 b('front not erased properly', ['C07'], (T, "broadcast_messages_.erase(broadcast_messages_.begin());", "broadcast_messages_.pop_back();")),
 b('broadcast no lock', ['C07'], (T, "  std::lock_guard<std::mutex> lock(broadcast_message_mutex_);\n  broadcast_messages_.emplace_back", "  broadcast_messages_.emplace_back")),
 b('duplicates suppressed', ['C07'], (T, "  broadcast_messages_.emplace_back(", "  if (!broadcast_messages_.empty() && broadcast_messages_.back().first == remote_endpoint_name && broadcast_messages_.back().second == outgoing) return;\n  broadcast_messages_.emplace_back(")),
 b('have inverted when 1', ['C07'], (T, "return !broadcast_messages_.empty();", "return broadcast_messages_.size() > 1;")),
 b('broadcast stops at failing client', ['C07'], ("        protocol::send(connection, broadcast);\n", "        if (!protocol::send(connection, broadcast)) break;\n")),
 b('broadcast to listener too', ['C07'], ("        if (connection == server_fd_)\n        {\n          continue;\n        }\n        std::lock", "        std::lock")),
 b('broadcast with id', ['C07'], ("      broadcast.data = name_payload.second;\n", "      broadcast.data = name_payload.second;\n      broadcast.request_id = 1;\n")),
 b('broadcast to copy', ['C07'], ("      for (const auto& connection : connections_)\n      {\n        if (connection == server_fd_)\n        {\n          continue;\n        }\n        std::lock", "      for (const auto& connection : copy_of_connections)\n      {\n        if (connection == server_fd_)\n        {\n          continue;\n        }\n        std::lock")),
 b('unsolicited to handle', ['C07'], ("it->second->unsolicited(*this, incoming.data, response.data)", "it->second->handle(*this, incoming.data, response.data)")),
 b('unsolicited under registry unlocked', ['C08'], ("        std::lock_guard<std::mutex> elock(endpoint_mutex_);\n", "")),
 # C08
 b('processMsg unlocked', ['C08'], ("  const auto endpoint = getEndpoint(request.endpoint);\n", "  const auto eit = endpoints_.find(request.endpoint);\n  const auto endpoint = eit == endpoints_.end() ? nullptr : eit->second;\n")),
 b('first wins', ['C08'], (T, "  endpoints_[endpoint->getName()] = endpoint;", "  endpoints_.insert({ endpoint->getName(), endpoint });")),
 b('transport not set on replace', ['C08'], (T, "  endpoints_[endpoint->getName()] = endpoint;\n  endpoint->setTransport(this);", "  const bool fresh = endpoints_.find(endpoint->getName()) == endpoints_.end();\n  endpoints_[endpoint->getName()] = endpoint;\n  if (fresh) endpoint->setTransport(this);")),
 b('lookup by prefix', ['C08'], (T, "const auto it = endpoints_.find(name);", "const auto it = endpoints_.lower_bound(name);")),
 b('get unlocked', ['C08'], (T, "  std::lock_guard<std::mutex> lock(endpoint_mutex_);\n  const auto it", "  const auto it")),
 # C18
 b('join missing check', ['C18'], ("  if (thread_.joinable())", "  if (running_)")),
 b('dtor no close', ['C18'], ("    ::shutdown(connection, 2);\n    ::close(connection);\n  }\n}", "    ::shutdown(connection, 2);\n  }\n}")),
 b('bind leak', ['C18'], ("""could not bind socket.\n""", "") if False else ("""    logger_("[TransportUnix] Could not bind socket.");\n    ::close(server_fd_);\n""", """    logger_("[TransportUnix] Could not bind socket.");\n""")),
 b('listen fail true', ['C18'], ("""    logger_("[TransportUnix] Could not start listening for connections.");\n    ::close(server_fd_);\n    server_fd_ = 0;\n    return false;""", """    logger_("[TransportUnix] Could not start listening for connections.");""")),
 b('connect keeps fd', ['C18'], ("""    logger_("[TransportUnix] Could not connect socket.");\n    ::close(client_fd_);\n    client_fd_ = 0;""", """    logger_("[TransportUnix] Could not connect socket.");\n    ::close(client_fd_);""")),
 b('thread before insert', ['C18'], ("  connections_.insert(client_fd_);\n\n  running_ = true;\n  thread_ = std::thread([&]() { work(); });\n", "  running_ = true;\n  thread_ = std::thread([&]() { work(); });\n  connections_.insert(client_fd_);\n")),
 b('running after thread', ['C18'], ("  running_ = true;\n  thread_ = std::thread([this]() { work(); });\n", "  thread_ = std::thread([this]() { work(); });\n  running_ = true;\n")),
 b('lost stays connected', ['C18'], ("        running_ = false;\n        client_fd_ = 0;\n", "        running_ = false;\n")),
 b('connected and', ['C18'], ("(client_fd_ != 0) || (server_fd_ != 0)", "(client_fd_ > 0) && (server_fd_ != 0)")),
 b('factory ignores failure', ['C18'], ("  if (t->connect(dest->pid_))\n  {\n    return t;\n  }\n  return nullptr;", "  t->connect(dest->pid_);\n  return t;")),
 b('no wake', ['C18'], ("  running_ = false;\n  if (thread_", "  if (thread_")),
 # refactorings
 r('R ternary isConnected', ['C18'], ("return (client_fd_ != 0) || (server_fd_ != 0);", "if (server_fd_ != 0)\n  {\n    return true;\n  }\n  return client_fd_ != 0;")),
 r('R closeConnection helper', ALL, ("void TransportUnix::work()\n", "static void closeFd(int fd)\n{\n  ::shutdown(fd, SHUT_RDWR);\n  ::close(fd);\n}\n\nvoid TransportUnix::work()\n"), ("          ::shutdown(connection, 2);\n          ::close(connection);\n          connections_.erase(connection);\n          continue;", "          closeFd(connection);\n          connections_.erase(connection);\n          continue;"), ("        ::shutdown(connection, 2);\n        ::close(connection);\n        connections_.erase(connection);\n      }\n    }", "        closeFd(connection);\n        connections_.erase(connection);\n      }\n    }")),
 r('R iterator loop copy', ['C06', 'C07', 'C18'], ("    for (const auto& connection : copy_of_connections)\n    {\n", "    for (auto cit = copy_of_connections.begin(); cit != copy_of_connections.end(); ++cit)\n    {\n      const int connection = *cit;\n")),
 r('R rbegin max', ['C06', 'C18'], ("*std::max_element(connections_.begin(), connections_.end()) + 1", "*connections_.rbegin() + 1")),
 r('R manual max', ['C06', 'C18'], ("    const int nfds = *std::max_element(connections_.begin(), connections_.end()) + 1;\n", "    int nfds = 0;\n    for (const auto& connection : connections_)\n    {\n      nfds = std::max(nfds, connection + 1);\n    }\n")),
 r('R cleanup while', ['C05'], (CLEAN, "      auto it = ongoing_requests_.begin();\n      while (it != ongoing_requests_.end())\n      {\n        const bool dropped = it->second.second.expired();\n        if (!dropped)\n        {\n          ++it;\n          continue;\n        }\n        it = ongoing_requests_.erase(it);\n      }\n")),
 r('R broadcast if', ['C07'], (BC, BC.replace("        if (connection == server_fd_)\n        {\n          continue;\n        }\n        std::lock_guard<std::mutex> wlock(write_lock_);\n        protocol::send(connection, broadcast);\n", "        if (connection != server_fd_)\n        {\n          std::lock_guard<std::mutex> wlock(write_lock_);\n          protocol::send(connection, broadcast);\n        }\n"))),
 r('R lock outside bc loop', ['C07'], ("      for (const auto& connection : connections_)\n      {\n        if (connection == server_fd_)\n        {\n          continue;\n        }\n        std::lock_guard<std::mutex> wlock(write_lock_);\n", "      std::lock_guard<std::mutex> wlock(write_lock_);\n      for (const auto& connection : connections_)\n      {\n        if (connection == server_fd_)\n        {\n          continue;\n        }\n")),
 r('R sendLocked helper', ['C05', 'C06', 'C07'], ("void TransportUnix::work()\n", "static bool sendLocked(std::mutex& m, int fd, const protocol::Msg& msg)\n{\n  std::lock_guard<std::mutex> l(m);\n  return protocol::send(fd, msg);\n}\n\nvoid TransportUnix::work()\n"), ("            std::lock_guard<std::mutex> wlock(write_lock_);\n            protocol::send(connection, response);", "            sendLocked(write_lock_, connection, response);"), ("        std::lock_guard<std::mutex> wlock(write_lock_);\n        protocol::send(connection, broadcast);", "        sendLocked(write_lock_, connection, broadcast);")),
 r('R request emplace', ['C05'], ("ongoing_requests_[{ remote_endpoint_name, request_id }] = { std::move(promise), response };", "ongoing_requests_.emplace(std::make_pair(remote_endpoint_name, request_id), std::make_pair(std::move(promise), std::weak_ptr<std::future<Data>>(response)));")),
 r('R unique_lock request', ['C05'], ("    std::lock_guard<std::mutex> lock(request_lock_);\n    ongoing_requests_[{", "    std::unique_lock<std::mutex> lock(request_lock_);\n    ongoing_requests_[{")),
 r('R key variable', ['C05'], ("  auto promise = std::promise<Data>();\n", "  const std::pair<std::string, std::size_t> key{ remote_endpoint_name, request_id };\n  std::promise<Data> promise;\n"), ("ongoing_requests_[{ remote_endpoint_name, request_id }]", "ongoing_requests_[key]"), ("ongoing_requests_.find({ remote_endpoint_name, request_id })", "ongoing_requests_.find(key)")),
 r('R to_string name', ['C18'], ("""  std::stringstream ss;\n  ss << "" << ::getpid() << "_scalopus";\n  std::strncpy(socket_config.sun_path + 1, ss.str().c_str(), sizeof(socket_config.sun_path) - 2);\n\n  // Obtain""", """  const std::string name = std::to_string(::getpid()) + "_scalopus";\n  std::strncpy(socket_config.sun_path + 1, name.c_str(), sizeof(socket_config.sun_path) - 2);\n\n  // Obtain""")),
 r('R process early return', ['C06', 'C08'], ("  if (endpoint != nullptr)\n  {\n    Data outgoing;\n    // Let the endpoint handle the data and if necessary respond.\n    return endpoint->handle(*this, request.data, response.data);\n  }\n  // @TODO handle requests to endpoints we don't have gracefully.\n  return false;", "  if (endpoint == nullptr)\n  {\n    return false;\n  }\n  return endpoint->handle(*this, request.data, response.data);")),
 r('R popBroadcast pair', ['C07'], (T, "  std::pair<std::string, Data> tmp = std::move(broadcast_messages_.front());\n", "  auto front = broadcast_messages_.begin();\n  std::pair<std::string, Data> tmp{ front->first, front->second };\n")),
 r('R push_back', ['C07'], (T, "broadcast_messages_.emplace_back(remote_endpoint_name, outgoing);", "broadcast_messages_.push_back(std::make_pair(remote_endpoint_name, outgoing));")),
 r('R count/at', ['C08'], (T, "  const auto it = endpoints_.find(name);\n  if (it != endpoints_.end())\n  {\n    return it->second;\n  }\n  return nullptr;", "  return endpoints_.count(name) == 0 ? nullptr : endpoints_.at(name);")),
 r('R unsolicited via getEndpoint', ['C05', 'C07', 'C08'], ("        std::lock_guard<std::mutex> elock(endpoint_mutex_);\n        const auto it = endpoints_.find(incoming.endpoint);\n        if (it != endpoints_.end())\n", "        const auto endpoint = getEndpoint(incoming.endpoint);\n        if (endpoint != nullptr)\n"), ("it->second->unsolicited(*this", "endpoint->unsolicited(*this")),
 r('R split handleClient', ALL, ("void TransportUnix::work()\n", "static bool readOne(int fd, protocol::Msg& m)\n{\n  const bool ok = protocol::receive(fd, m);\n  return ok;\n}\n\nvoid TransportUnix::work()\n"), ("bool result = protocol::receive(connection, request);\n        if (result)", "if (readOne(connection, request))"), ("if (!protocol::receive(client_fd_, incoming))", "if (!readOne(client_fd_, incoming))")),
 r('R deque queue', ['C07'], ('scalopus_interface/include/scalopus_interface/transport.h', "std::vector<std::pair<std::string, Data>> broadcast_messages_", "std::deque<std::pair<std::string, Data>> broadcast_messages_"), ('scalopus_interface/include/scalopus_interface/transport.h', "#include <future>", "#include <deque>\n#include <future>"), (T, "broadcast_messages_.erase(broadcast_messages_.begin());", "broadcast_messages_.pop_front();")),
]
