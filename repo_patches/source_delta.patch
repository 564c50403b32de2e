From e9712f1751ff16daf65439ef301114ee12287952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:20 +0000
Subject: [PATCH 01/31] fix: readData must continue after a short read on the
 stream

---
 scalopus_transport/src/protocol.cpp | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index 0ecaeb0..92d3b47 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -68,23 +68,12 @@ bool readData(int fd, size_t length, Data& incoming)
       break;
     }
 
-    if (chunk_received == chunk_size)
-    {
-      // read the next chunk.
-      continue;
-    }
-
-    if (chunk_received == -1)
-    {
-      // an error occured.
-      return false;
-    }
-    else if (chunk_received == 0)
+    if (chunk_received == 0)
     {
       // end of file.
       return false;
     }
-    break;
+    // A stream socket may hand out less than requested, read on until we have it all.
   }
   return true;
 }
-- 
2.43.0


From bf2c2daffcba18f6c9350578fb56da7006ce7fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:20 +0000
Subject: [PATCH 02/31] fix: protocol::send refuses messages whose lengths do
 not fit the length fields

---
 scalopus_transport/src/protocol.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scalopus_transport/src/protocol.cpp b/scalopus_transport/src/protocol.cpp
index 92d3b47..cb1b3fc 100644
--- a/scalopus_transport/src/protocol.cpp
+++ b/scalopus_transport/src/protocol.cpp
@@ -36,6 +36,7 @@
 #include <array>
 #include <cstring>
 #include <iostream>
+#include <limits>
 
 namespace scalopus
 {
@@ -147,6 +148,11 @@ bool send(int fd, const Msg& outgoing)
   {
     return false;
   }
+  if (outgoing.endpoint.size() > std::numeric_limits<uint16_t>::max() ||
+      outgoing.data.size() > std::numeric_limits<uint32_t>::max())
+  {
+    return false;  // The length fields cannot represent this message.
+  }
   uint16_t length_endpoint_name = static_cast<uint16_t>(outgoing.endpoint.size());
   uint32_t length_data = static_cast<uint32_t>(outgoing.data.size());
 
-- 
2.43.0


From 7e498c048a47d59f9c5912f2978a1612cc39b9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:31 +0000
Subject: [PATCH 03/31] fix: popBroadcast must hand out broadcasts in the order
 they were queued

---
 scalopus_interface/src/transport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scalopus_interface/src/transport.cpp b/scalopus_interface/src/transport.cpp
index c18845c..9f5edbb 100644
--- a/scalopus_interface/src/transport.cpp
+++ b/scalopus_interface/src/transport.cpp
@@ -45,8 +45,8 @@ void Transport::broadcast(const std::string& remote_endpoint_name, const Data& o
 std::pair<std::string, Data> Transport::popBroadcast()
 {
   std::lock_guard<std::mutex> lock(broadcast_message_mutex_);
-  std::pair<std::string, Data> tmp = std::move(broadcast_messages_.back());
-  broadcast_messages_.pop_back();
+  std::pair<std::string, Data> tmp = std::move(broadcast_messages_.front());
+  broadcast_messages_.erase(broadcast_messages_.begin());
   return tmp;
 }
 
-- 
2.43.0


From db26f9c42b18c3820b6ad585bd46fdc08fa5adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:31 +0000
Subject: [PATCH 04/31] fix: TransportUnix::processMsg looked up endpoints
 without holding the endpoint mutex

---
 scalopus_transport/src/transport_unix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 0b3564c..92a0129 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -394,12 +394,12 @@ bool TransportUnix::processMsg(const protocol::Msg& request, protocol::Msg& resp
   response.endpoint = request.endpoint;
   response.request_id = request.request_id;
   // Check if we have this endpoint.
-  const auto it = endpoints_.find(request.endpoint);
-  if (it != endpoints_.end())
+  const auto endpoint = getEndpoint(request.endpoint);
+  if (endpoint != nullptr)
   {
     Data outgoing;
     // Let the endpoint handle the data and if necessary respond.
-    return it->second->handle(*this, request.data, response.data);
+    return endpoint->handle(*this, request.data, response.data);
   }
   // @TODO handle requests to endpoints we don't have gracefully.
   return false;
-- 
2.43.0


From 26a6b4c1d6f722a3c378d3d248b31e3f6b56c870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:31 +0000
Subject: [PATCH 05/31] fix: a response arriving before request() stored its
 promise was lost

---
 scalopus_transport/src/transport_unix.cpp | 25 ++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 92a0129..f2f78eb 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -146,18 +146,29 @@ Transport::PendingResponse TransportUnix::request(const std::string& remote_endp
   auto promise = std::promise<Data>();
   auto response = std::make_shared<std::future<Data>>(promise.get_future());
 
+  {
+    // Store the promise in the map before sending, the response may arrive before send returns.
+    std::lock_guard<std::mutex> lock(request_lock_);
+    ongoing_requests_[{ remote_endpoint_name, request_id }] = { std::move(promise), response };
+  }
+
+  bool sent{ false };
   {
     std::lock_guard<std::mutex> lock(write_lock_);
-    if (!protocol::send(client_fd_, outgoing_msg))
+    sent = protocol::send(client_fd_, outgoing_msg);
+  }
+
+  if (!sent)
+  {
+    // Sending failed, there will be no response; report that and drop the request.
+    std::lock_guard<std::mutex> lock(request_lock_);
+    auto request_it = ongoing_requests_.find({ remote_endpoint_name, request_id });
+    if (request_it != ongoing_requests_.end())
     {
-      promise.set_exception(std::make_exception_ptr(communication_error("Failed to send data.")));
-      return response;
+      request_it->second.first.set_exception(std::make_exception_ptr(communication_error("Failed to send data.")));
+      ongoing_requests_.erase(request_it);
     }
   }
-
-  // Send succeeded, store the promise in the map, its result should be pending.
-  std::lock_guard<std::mutex> lock(request_lock_);
-  ongoing_requests_[{ remote_endpoint_name, request_id }] = { std::move(promise), response };
   return response;
 }
 
-- 
2.43.0


From 981e61cfb6a68e162a33616eaf1902b09b0e56bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:31 +0000
Subject: [PATCH 06/31] fix: an incompletely received message must not resolve
 a request

---
 scalopus_transport/src/transport_unix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index f2f78eb..243576e 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -277,6 +277,7 @@ void TransportUnix::work()
         // we failed reading data, if this happens we lost the connection.
         running_ = false;
         client_fd_ = 0;
+        continue;  // whatever was read of the message is not complete, don't use it.
       }
 
       // lock the requests map.
-- 
2.43.0


From f10f9f29f45e6f8098575e5e6916cb4ade93bb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:50 +0000
Subject: [PATCH 07/31] fix: destroying a TransportUnix that never got a worker
 thread terminated the process

---
 scalopus_transport/src/transport_unix.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 243576e..f91ea6a 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -216,7 +216,10 @@ TransportUnix::~TransportUnix()
 {
   // First, stop the thread
   running_ = false;
-  thread_.join();
+  if (thread_.joinable())  // no worker was started if serve or connect failed, or were never called.
+  {
+    thread_.join();
+  }
 
   // Then clean up all the connections.
   for (const auto& connection : connections_)
-- 
2.43.0


From 8bafcb8d942a2d91265fe63dc8ff39d70cfbe05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:50 +0000
Subject: [PATCH 08/31] fix: a failed serve or connect leaked its socket and
 left the transport claiming to be connected

---
 scalopus_transport/src/transport_unix.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index f91ea6a..9685349 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -53,6 +53,7 @@ bool TransportUnix::serve()
 
   if (server_fd_ == -1)
   {
+    server_fd_ = 0;
     logger_("[TransportUnix] Could not create socket.");
     return false;
   }
@@ -74,6 +75,8 @@ bool TransportUnix::serve()
   if (bind(server_fd_, reinterpret_cast<sockaddr*>(&socket_config), static_cast<unsigned int>(path_length)) == -1)
   {
     logger_("[TransportUnix] Could not bind socket.");
+    ::close(server_fd_);
+    server_fd_ = 0;
     return false;
   }
 
@@ -81,6 +84,8 @@ bool TransportUnix::serve()
   if (listen(server_fd_, 5) == -1)
   {
     logger_("[TransportUnix] Could not start listening for connections.");
+    ::close(server_fd_);
+    server_fd_ = 0;
     return false;
   }
   else
@@ -103,6 +108,7 @@ bool TransportUnix::connect(std::size_t pid)
 
   if (client_fd_ == -1)
   {
+    client_fd_ = 0;
     std::cerr << "[TransportUnix] Could not create socket." << std::endl;
     return false;
   }
@@ -121,6 +127,8 @@ bool TransportUnix::connect(std::size_t pid)
   if (::connect(client_fd_, reinterpret_cast<sockaddr*>(&socket_config), static_cast<unsigned int>(path_length)) == -1)
   {
     logger_("[TransportUnix] Could not connect socket.");
+    ::close(client_fd_);
+    client_fd_ = 0;
     return false;
   }
   else
-- 
2.43.0


From acbaa3db17483e36ecd113dbd88888d5e162a4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:11 +0000
Subject: [PATCH 09/31] fix: shut connections down before closing them,
 afterwards the descriptor may belong to someone else

---
 scalopus_transport/src/transport_unix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 9685349..4bd9238 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -232,8 +232,8 @@ TransportUnix::~TransportUnix()
   // Then clean up all the connections.
   for (const auto& connection : connections_)
   {
-    ::close(connection);
     ::shutdown(connection, 2);
+    ::close(connection);
   }
 }
 
@@ -354,16 +354,16 @@ void TransportUnix::work()
         }
         else
         {
-          ::close(connection);
           ::shutdown(connection, 2);
+          ::close(connection);
           connections_.erase(connection);
         }
       }
 
       if (FD_ISSET(connection, &except_fds))
       {
-        ::close(connection);
         ::shutdown(connection, 2);
+        ::close(connection);
         connections_.erase(connection);
       }
     }
-- 
2.43.0


From ebdd00fdab0a2d619ac86ff8090fa9987ae80433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:11 +0000
Subject: [PATCH 10/31] fix: a connection that broke with an exceptional
 condition pending was closed twice

---
 scalopus_transport/src/transport_unix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 4bd9238..6bab2c4 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -357,6 +357,7 @@ void TransportUnix::work()
           ::shutdown(connection, 2);
           ::close(connection);
           connections_.erase(connection);
+          continue;  // this connection is gone, don't close it again below.
         }
       }
 
-- 
2.43.0


From dad96ec4bd8a0ffb35e96e6ea98d10ed2b6cfe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:37 +0000
Subject: [PATCH 11/31] fix: after a failed select the worker could block on an
 idle connection and stop serving the others

---
 scalopus_transport/src/transport_unix.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 6bab2c4..e72154f 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -264,6 +264,7 @@ void TransportUnix::work()
     if (select_result == -1)
     {
       logger_("[TransportUnix]: Failure occured on select.");
+      continue;  // the sets are unspecified now, acting on them could block the worker on an idle connection.
     }
 
     // Handle server stuff, accept new connection:
-- 
2.43.0


From 5a03d791548cd16b3eae9b03a46961a6858a217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:37 +0000
Subject: [PATCH 12/31] fix: while accept fails the existing connections must
 still be served

---
 scalopus_transport/src/transport_unix.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index e72154f..3ffa299 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -275,9 +275,11 @@ void TransportUnix::work()
       if (client == -1)
       {
         logger_("[TransportUnix] Could not accept client.");
-        continue;
       }
-      connections_.insert(client);
+      else
+      {
+        connections_.insert(client);
+      }
     }
 
     // handle client readable:
-- 
2.43.0


From 1826ec07db5b70f9c85c3940904082bc0635293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:21 +0000
Subject: [PATCH 13/31] fix: loopback transport survives unknown endpoints and
 concurrent connects

A request for an endpoint the server does not have, a request made on the
server side and an answer to a broadcast the server has no endpoint for
dereferenced a null pointer in the worker. The list of clients was used by
the worker while connect() appended to it.
---
 scalopus_transport/src/transport_loopback.cpp | 17 +++++++++++++----
 scalopus_transport/src/transport_loopback.h   |  1 +
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index 416edc5..edf6f62 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -51,6 +51,7 @@ TransportLoopback::TransportLoopback(Ptr server) : TransportLoopback{}
 
 void TransportLoopback::addClient(Transport::WeakPtr client)
 {
+  std::lock_guard<decltype(clients_lock_)> lock(clients_lock_);
   clients_.push_back(client);
 }
 
@@ -96,14 +97,15 @@ void TransportLoopback::work()
           continue;  // request went stale.
         }
 
-        // get the appropriate endpoint from the server.
-        auto endpoint = server_->getEndpoint(remote_endpoint_name);
+        // get the appropriate endpoint from the server (a server itself has none to send requests to).
+        auto endpoint = server_ != nullptr ? server_->getEndpoint(remote_endpoint_name) : nullptr;
 
         // If the endpoint doesn't exist on the remote end, throw
         if (endpoint == nullptr)
         {
           promise.set_exception(std::make_exception_ptr(std::runtime_error(
               "The TransportLoopback does not sending data to non-existant endpoints on the server.")));
+          continue;
         }
 
         Data resp;
@@ -123,7 +125,13 @@ void TransportLoopback::work()
         auto broadcast = Transport::popBroadcast();
         const auto& remote_endpoint_name = broadcast.first;
         const auto& outgoing = broadcast.second;
-        for (auto weak_client : clients_)
+        std::vector<Transport::WeakPtr> clients;
+        {
+          // Clients may be added from other threads while we are distributing.
+          std::lock_guard<decltype(clients_lock_)> lock(clients_lock_);
+          clients = clients_;
+        }
+        for (const auto& weak_client : clients)
         {
           auto client = weak_client.lock();
           if (client != nullptr)
@@ -135,7 +143,8 @@ void TransportLoopback::work()
               if (endpoint->unsolicited(*client, outgoing, resp))
               {
                 Data resp2;
-                if (getEndpoint(remote_endpoint_name)->handle(*client, resp, resp2))
+                auto server_endpoint = getEndpoint(remote_endpoint_name);
+                if (server_endpoint != nullptr && server_endpoint->handle(*client, resp, resp2))
                 {
                   // We stop here... This is slightly different than a real transport... but works for now.
                   throw std::runtime_error("The TransportLoopback does not handle responses on unsolicited data.");
diff --git a/scalopus_transport/src/transport_loopback.h b/scalopus_transport/src/transport_loopback.h
index bed74be..f638f6a 100644
--- a/scalopus_transport/src/transport_loopback.h
+++ b/scalopus_transport/src/transport_loopback.h
@@ -80,6 +80,7 @@ private:
 
   Ptr server_;  //!< If populated this is the server the client is connected to.
 
+  std::mutex clients_lock_;                  //!< Lock to guard modification of clients_.
   std::vector<Transport::WeakPtr> clients_;  //!< List of the clients connected to the server.
 
   /**
-- 
2.43.0


From 222d0ece280c9be2d5efcbdc65d277ebf282e449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:58 +0000
Subject: [PATCH 14/31] fix: a destination that refuses the connection or loses
 it during introspection no longer ends the manager

---
 scalopus_general/src/endpoint_manager_poll.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/scalopus_general/src/endpoint_manager_poll.cpp b/scalopus_general/src/endpoint_manager_poll.cpp
index 465f890..3b894ab 100644
--- a/scalopus_general/src/endpoint_manager_poll.cpp
+++ b/scalopus_general/src/endpoint_manager_poll.cpp
@@ -84,7 +84,7 @@ void EndpointManagerPoll::connect(const Destination::Ptr destination)
   log("[scalopus] Creating transport to: " + std::string(*destination));
   // Attempt to make a transport to this server.
   auto transport = factory_->connect(destination);
-  if (!transport->isConnected())
+  if (transport == nullptr || !transport->isConnected())
   {
     log("[scalopus] Client failed to connect to " + std::string(*destination));
     return;
@@ -95,7 +95,16 @@ void EndpointManagerPoll::connect(const Destination::Ptr destination)
   // Investigate which endpoints are supported by this transport.
   auto introspect_client = std::make_shared<EndpointIntrospect>();
   introspect_client->setTransport(transport);
-  const auto supported = introspect_client->supported();
+  std::vector<std::string> supported;
+  try
+  {
+    supported = introspect_client->supported();
+  }
+  catch (const std::exception& e)
+  {
+    // The connection got lost or the answer is not usable, this must not affect the other destinations.
+    log("[scalopus] Failed to introspect " + std::string(*destination) + ": " + e.what());
+  }
   for (const auto& supported_endpoint : supported)
   {
     const auto it = endpoint_factories_.find(supported_endpoint);
-- 
2.43.0


From e23bc7bf9c157b6072c3cce2029a9f57fa7af1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 15/31] fix: disabling a trace callback waits for a call in
 progress and prevents further ones

---
 .../scalopus_tracing/babeltrace_parser.h      | 19 +++++++++++++++++++
 .../src/lttng/babeltrace_parser.cpp           |  6 +-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
index e9ee4ec..2dcbed8 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h
@@ -54,12 +54,31 @@ public:
   {
     bool active{ true };
     std::function<void(const CTFEvent& event)> callback;
+    std::recursive_mutex mutex;  //!< Guards the above, recursive such that the callback itself may disable.
 
+    /**
+     * @brief Disable this callback, after this function returns the callback is not (or no longer) being called.
+     */
     void disable()
     {
+      std::lock_guard<std::recursive_mutex> lock(mutex);
       active = false;
       callback = nullptr;
     }
+
+    /**
+     * @brief Pass the event to the callback.
+     * @return False if this callback is no longer active.
+     */
+    bool call(const CTFEvent& event)
+    {
+      std::lock_guard<std::recursive_mutex> lock(mutex);
+      if (active && callback)
+      {
+        callback(event);
+      }
+      return active;
+    }
   };
 
   using Ptr = std::shared_ptr<BabeltraceParser>;
diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index 4928765..325778c 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -99,7 +99,7 @@ void BabeltraceParser::process(FILE* stdout)
           auto event = parse(line);
           for (auto it = sessions_recording_.begin(); it != sessions_recording_.end();)
           {
-            if ((*it)->active == false)
+            if (!(*it)->call(event))
             {
               // session went inactive, remove it.
               std::stringstream ss;
@@ -108,10 +108,6 @@ void BabeltraceParser::process(FILE* stdout)
               it = sessions_recording_.erase(it);
               continue;
             }
-            if ((*it)->callback)
-            {
-              (*it)->callback(event);
-            }
             it++;
           }
         }
-- 
2.43.0


From e2de335aeceb35e8da5acf95303a74e62e434aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 16/31] fix: trace lines longer than the read buffer are not
 split into several

---
 scalopus_tracing/src/lttng/babeltrace_parser.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scalopus_tracing/src/lttng/babeltrace_parser.cpp b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
index 325778c..e8d4b31 100644
--- a/scalopus_tracing/src/lttng/babeltrace_parser.cpp
+++ b/scalopus_tracing/src/lttng/babeltrace_parser.cpp
@@ -28,6 +28,9 @@
   OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 #include "scalopus_tracing/babeltrace_parser.h"
+#include <stdio.h>
+#include <sys/select.h>
+#include <cstdlib>
 #include <iostream>
 #include <sstream>
 
@@ -60,7 +63,6 @@ void BabeltraceParser::process(FILE* stdout)
 
   // start the processing.
   processing_.store(true);
-  std::array<char, 1024> tmp;
   int fd = fileno(stdout);
   fd_set read_fds;
   fd_set write_fds;
@@ -84,12 +86,16 @@ void BabeltraceParser::process(FILE* stdout)
     }
     if (FD_ISSET(fd, &read_fds))
     {
-      // read line
+      // read line, whatever its length
       std::string line;
-      if (std::fgets(tmp.data(), tmp.size(), stdout))
+      char* buffer = nullptr;
+      std::size_t buffer_size = 0;
+      const ssize_t length = ::getline(&buffer, &buffer_size, stdout);
+      if (length > 0)
       {
-        line = std::string(tmp.data());
+        line.assign(buffer, static_cast<std::size_t>(length));
       }
+      std::free(buffer);
       if (!line.empty())
       {
         // lock, if recording sessions, parse and pass to all recording sessions.
-- 
2.43.0


From ae075e5bfeca266295c38000bca2709034fddef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:11 +0000
Subject: [PATCH 17/31] fix: numbers that do not fit no longer escape CTFEvent
 as exceptions, the timestamp is initialised and ends at its bracket

---
 .../include_consumer/scalopus_tracing/ctfevent.h          | 2 +-
 scalopus_tracing/src/lttng/ctfevent.cpp                   | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h b/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
index 64d7e33..b5bee39 100644
--- a/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
+++ b/scalopus_tracing/include_consumer/scalopus_tracing/ctfevent.h
@@ -94,7 +94,7 @@ public:
 private:
   std::string line_;  //! Original line from babeltrace.
 
-  double timestamp_;               //! Timestamp of this event.
+  double timestamp_{ 0.0 };        //! Timestamp of this event.
   std::string hostname_;           //! Hostname this event originated from.
   std::string tracepoint_domain_;  //! Tracepoint domain of this event.
   std::string tracepoint_name_;    //! Tracepoint name of this event.
diff --git a/scalopus_tracing/src/lttng/ctfevent.cpp b/scalopus_tracing/src/lttng/ctfevent.cpp
index a7633f5..33fed0b 100644
--- a/scalopus_tracing/src/lttng/ctfevent.cpp
+++ b/scalopus_tracing/src/lttng/ctfevent.cpp
@@ -49,17 +49,17 @@ CTFEvent::CTFEvent(std::string line)
 
   // Extract the timestamp, its between []
   size_t start_pos = line.find("[");
-  size_t end_pos = line.find("]");
+  size_t end_pos = line.find("]", start_pos == std::string::npos ? 0 : start_pos);
   if (start_pos == std::string::npos || end_pos == std::string::npos)
   {
     return;
   }
-  std::string timestamp_str = line.substr(start_pos + 1, end_pos - 1);
+  std::string timestamp_str = line.substr(start_pos + 1, end_pos - start_pos - 1);
   try
   {
     timestamp_ = std::stod(timestamp_str);
   }
-  catch (const std::invalid_argument&)
+  catch (const std::logic_error&)  // invalid_argument, or out_of_range if it does not fit a double.
   {
     return;
   }
@@ -163,7 +163,7 @@ CTFEvent::CTFEvent(std::string line)
         // if value is a string, this will fail, we need to catch that.
         res[key] = std::stoull(value);
       }
-      catch (const std::invalid_argument&)
+      catch (const std::logic_error&)  // invalid_argument, or out_of_range if it does not fit.
       {
       }
     }
-- 
2.43.0


From 9da416da80691343cc20bf13f89d56dfeea1a947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:11 +0000
Subject: [PATCH 18/31] fix: an empty tracepoint specification no longer takes
 the rest of the trace line

---
 scalopus_tracing/src/lttng/ctfevent.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scalopus_tracing/src/lttng/ctfevent.cpp b/scalopus_tracing/src/lttng/ctfevent.cpp
index 33fed0b..8b0419b 100644
--- a/scalopus_tracing/src/lttng/ctfevent.cpp
+++ b/scalopus_tracing/src/lttng/ctfevent.cpp
@@ -82,8 +82,11 @@ CTFEvent::CTFEvent(std::string line)
   {
     return;
   }
-  // -1 for removal of space, -1 for removal of ':'
-  std::string trace_point = line.substr(start_pos + 1, end_pos - start_pos - 1 - 1);
+  std::string trace_point = line.substr(start_pos + 1, end_pos - start_pos - 1);
+  if (!trace_point.empty() && trace_point.back() == ':')
+  {
+    trace_point.pop_back();  // removal of the ':' that ends the specification.
+  }
 
   // Split the tracepoint in domain and name.
   size_t split_point = trace_point.find(":");
-- 
2.43.0


From 7481ed46e29579e0714011b5e936daa361d05c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:02 +0000
Subject: [PATCH 19/31] fix: an empty or malformed group of a trace line no
 longer takes text of other groups

---
 scalopus_tracing/src/lttng/ctfevent.cpp | 29 ++++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/scalopus_tracing/src/lttng/ctfevent.cpp b/scalopus_tracing/src/lttng/ctfevent.cpp
index 8b0419b..ef48586 100644
--- a/scalopus_tracing/src/lttng/ctfevent.cpp
+++ b/scalopus_tracing/src/lttng/ctfevent.cpp
@@ -97,6 +97,20 @@ CTFEvent::CTFEvent(std::string line)
   tracepoint_domain_ = trace_point.substr(0, split_point);
   tracepoint_name_ = trace_point.substr(split_point + 1, trace_point.size() - split_point);
 
+  // Obtains the text between two curly braces, without the spaces next to them.
+  auto group = [](const std::string& str, size_t open, size_t close) -> std::string {
+    std::string res = str.substr(open + 1, close - open - 1);
+    if (!res.empty() && res.front() == ' ')
+    {
+      res.erase(0, 1);
+    }
+    if (!res.empty() && res.back() == ' ')
+    {
+      res.pop_back();
+    }
+    return res;
+  };
+
   // Obtain the stream context between the curly braces.
   start_pos = end_pos;
   start_pos = line.find("{", start_pos);
@@ -105,7 +119,7 @@ CTFEvent::CTFEvent(std::string line)
   {
     return;
   }
-  std::string stream_context = line.substr(start_pos + 2, end_pos - start_pos - 1 - 2);
+  std::string stream_context = group(line, start_pos, end_pos);
 
   // Obtain the event context between the curly braces.
   start_pos = end_pos;
@@ -115,7 +129,7 @@ CTFEvent::CTFEvent(std::string line)
   {
     return;
   }
-  std::string event_context = line.substr(start_pos + 2, end_pos - start_pos - 1 - 2);
+  std::string event_context = group(line, start_pos, end_pos);
 
   // Obtain the trace data between the curly braces.
   start_pos = end_pos;
@@ -125,7 +139,7 @@ CTFEvent::CTFEvent(std::string line)
   {
     return;
   }
-  std::string trace_data = line.substr(start_pos + 2, end_pos - start_pos - 1 - 2);
+  std::string trace_data = group(line, start_pos, end_pos);
 
   // Make a lambda that can convert the syntax between the curly braces (comma separated values) into a map of integers.
   auto processContext = [](std::string csv) -> std::map<std::string, unsigned long long int> {
@@ -152,13 +166,12 @@ CTFEvent::CTFEvent(std::string line)
       std::string kvpair = csv.substr(start, end - start);
       start = end + end_shift;
 
-      if (kvpair.size() <= 4)  // cannot contain one key value pair, it was likely an empty { } for this context.
-      {
-        break;
-      }
-
       // now, we have to parse the kvpair.
       size_t kvsplit_point = kvpair.find(" = ");
+      if (kvsplit_point == std::string::npos)  // not a key value pair, or an empty { } for this context.
+      {
+        continue;
+      }
       std::string key = kvpair.substr(0, kvsplit_point);
       std::string value = kvpair.substr(kvsplit_point + 3);  // 3 is length of " = "
       try
-- 
2.43.0


From 460e44bacb4a1d75b1826d6e1aa4e45ae13f6003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:49 +0000
Subject: [PATCH 20/31] fix: discovery lists the listening sockets only, and no
 sockets that merely look like one of a server

---
 scalopus_transport/src/transport_unix.cpp | 39 +++++++++++++----------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 3ffa299..36ada20 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -34,9 +34,11 @@
 #include <sys/un.h>
 #include <unistd.h>
 #include <algorithm>
+#include <cstdlib>
 #include <cstring>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include "protocol.h"
 
@@ -189,32 +191,37 @@ std::vector<std::size_t> TransportUnix::getTransportServers()
 {
   std::ifstream infile("/proc/net/unix");
   std::vector<std::size_t> res;
-  std::string suffix = "_scalopus";
+  const std::string suffix = "_scalopus";
+  const std::string listening = "00010000";  // __SO_ACCEPTCON, only the socket of the server itself has this.
   //  Num       RefCount Protocol Flags    Type St Inode Path
   //  0000000000000000: 00000002 00000000 00010000 0001 01 235190 @16121_scalopus
   std::string line;
   while (std::getline(infile, line))
   {
-    if (line.size() < suffix.size())
+    std::istringstream fields(line);
+    std::string num, ref_count, protocol, flags, type, state, inode, path, excess;
+    fields >> num >> ref_count >> protocol >> flags >> type >> state >> inode >> path;
+    if (fields.fail() || (fields >> excess))
     {
-      continue;  // definitely is not a line we are interested in.
+      continue;  // not as many fields as a line of interest has.
+    }
+    // Both ends of the connections to a server can have the same path, only list the server itself.
+    if (flags != listening)
+    {
+      continue;
     }
     // std::basic_string::ends_with is c++20 :|
-    if (line.substr(line.size() - suffix.size()) == suffix)
+    if (path.size() <= suffix.size() + 1 || path.front() != '@' || path.substr(path.size() - suffix.size()) != suffix)
     {
-      // We got a hit, extract the process id.
-      const auto space_before_path = line.rfind(" ");
-      const auto path = line.substr(space_before_path + 2);  // + 2 for space and @ symbol.
-      const auto space_before_inode = line.rfind(" ", space_before_path - 1);
-      const auto inode_str = line.substr(space_before_inode, space_before_path - space_before_inode);
-      if (std::atoi(inode_str.c_str()) == 0)
-      {
-        // clients to the socket get this 0 inode address...
-        continue;
-      }
-      char* tmp;
-      res.emplace_back(std::strtoul(path.substr(0, path.size() - suffix.size()).c_str(), &tmp, 10));
+      continue;
+    }
+    // We got a hit, extract the process id. Anything besides digits means it's some other socket.
+    const auto pid = path.substr(1, path.size() - suffix.size() - 1);
+    if (pid.find_first_not_of("0123456789") != std::string::npos || pid.size() > std::numeric_limits<unsigned int>::digits10)
+    {
+      continue;
     }
+    res.emplace_back(std::strtoul(pid.c_str(), nullptr, 10));
   }
 
   return res;
-- 
2.43.0


From 72424dd210fda96e0221be86d898514bf910db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:35 +0000
Subject: [PATCH 21/31] fix: keep LTTng counters per process and in order of
 time

Counters of different processes with the same name shared their series, and the value listed for another series was that
of the event recorded last, not of the one that happened last before the entry.
---
 scalopus_tracing/src/lttng/lttng_source.cpp | 34 +++++++++++++++------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/scalopus_tracing/src/lttng/lttng_source.cpp b/scalopus_tracing/src/lttng/lttng_source.cpp
index 23dbe09..b482939 100644
--- a/scalopus_tracing/src/lttng/lttng_source.cpp
+++ b/scalopus_tracing/src/lttng/lttng_source.cpp
@@ -78,10 +78,10 @@ std::vector<json> LttngSource::convertEvents()
   std::vector<json> result;
   result.reserve(events_.size());
 
-  // Map for the counter states.
+  // Maps for the counter states, counters of different processes can share a name.
   using SeriesMap = std::map<std::string, std::int64_t>;
   using CounterMap = std::map<std::string, SeriesMap>;
-  CounterMap counter_values;
+  using ProcessCounter = std::map<unsigned long long int, CounterMap>;
 
   provider_->updateMapping();
   const auto mapping = provider_->getMapping();
@@ -143,9 +143,8 @@ std::vector<json> LttngSource::convertEvents()
         const auto counter_series = LttngProvider::splitCounterSeriesName(trace_id_string);
         entry["name"] = counter_series.first;
         const std::int64_t z = static_cast<std::int64_t>(event.eventData().at("value"));
-        // Update the current counters.
-        counter_values[counter_series.first][counter_series.second] = z;
-        entry["args"] = counter_values[counter_series.first];
+        // Only this series; the other series are added when the entries are in order.
+        entry["args"] = SeriesMap{ { counter_series.second, z } };
       }
       result.push_back(entry);
     }
@@ -157,18 +156,33 @@ std::vector<json> LttngSource::convertEvents()
     return lhs.at("ts").get<double>() < rhs.at("ts").get<double>();
   });
 
+  // Update the counters in order of time, such that each entry holds the most recent value of all series seen so far.
+  ProcessCounter counter_values;
+  for (auto& entry : result)
+  {
+    if (entry.at("ph").get<std::string>() == "C")
+    {
+      auto& values = counter_values[entry.at("pid").get<unsigned long long int>()][entry.at("name").get<std::string>()];
+      for (const auto& series : entry.at("args").get<SeriesMap>())
+      {
+        values[series.first] = series.second;
+      }
+      entry["args"] = values;
+    }
+  }
+
   // Need a reverse iteration here, to populate all counters with all series seen in the entire interval.
-  CounterMap count_all_series;
+  ProcessCounter count_all_series;
   for (auto it = result.rbegin(); it < result.rend(); it++)
   {
     auto& entry = *it;
     if (entry.at("ph").get<std::string>() == "C")
     {
       auto values = entry.at("args").get<SeriesMap>();
-      const auto& name = entry.at("name").get<std::string>();
-      values.insert(count_all_series[name].begin(), count_all_series[name].end());  // add future keys to this entry
-      entry["args"] = values;           // update values to include the series used in the future.
-      count_all_series[name] = values;  // store most recent value in the map.
+      auto& future = count_all_series[entry.at("pid").get<unsigned long long int>()][entry.at("name").get<std::string>()];
+      values.insert(future.begin(), future.end());  // add future keys to this entry
+      entry["args"] = values;                       // update values to include the series used in the future.
+      future = values;                              // store most recent value in the map.
     }
   }
 
-- 
2.43.0


From 60bc87a89a7294690f99554ff6695101bef0f9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:35 +0000
Subject: [PATCH 22/31] fix: skip LTTng events that cannot be converted

An event of another kind in the scalopus domain, or one without its process, thread or value field, made finishInterval
throw and with it lose the whole recording.
---
 scalopus_tracing/src/lttng/lttng_source.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/scalopus_tracing/src/lttng/lttng_source.cpp b/scalopus_tracing/src/lttng/lttng_source.cpp
index b482939..cafaee6 100644
--- a/scalopus_tracing/src/lttng/lttng_source.cpp
+++ b/scalopus_tracing/src/lttng/lttng_source.cpp
@@ -68,6 +68,14 @@ std::vector<json> LttngSource::finishInterval()
   return convertEvents();
 }
 
+// Whether the event has all the fields that are needed to convert it.
+static bool isComplete(const CTFEvent& event)
+{
+  const auto& context = event.eventContext();
+  return context.count("vpid") && context.count("pthread_id") &&
+         (event.name() != "count_event" || event.eventData().count("value"));
+}
+
 std::vector<json> LttngSource::convertEvents()
 {
   if (events_.empty())
@@ -90,7 +98,7 @@ std::vector<json> LttngSource::convertEvents()
     // Time stamp, relative to start.
     double ts = event.time();
 
-    if (event.domain() == "scalopus_scope_id")
+    if (event.domain() == "scalopus_scope_id" && isComplete(event))
     {
       // entry scope:
       // , {"name": "function name", "pid": 5976, "ts": 77033.2, "cat": "PERF", "tid": 140501248366336, "ph": "B"}
@@ -146,6 +154,10 @@ std::vector<json> LttngSource::convertEvents()
         // Only this series; the other series are added when the entries are in order.
         entry["args"] = SeriesMap{ { counter_series.second, z } };
       }
+      else
+      {
+        continue;  // Not an event that can be shown.
+      }
       result.push_back(entry);
     }
   }
-- 
2.43.0


From f69bd5664e6536a40de60bb30689dabd1084eaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 23/31] fix: an endpoint that fails does not end the unix
 transport's worker thread

---
 scalopus_transport/src/transport_unix.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/scalopus_transport/src/transport_unix.cpp b/scalopus_transport/src/transport_unix.cpp
index 36ada20..9a65b2e 100644
--- a/scalopus_transport/src/transport_unix.cpp
+++ b/scalopus_transport/src/transport_unix.cpp
@@ -325,7 +325,16 @@ void TransportUnix::work()
           response.endpoint = incoming.endpoint;
           response.request_id = incoming.request_id;
           Data outgoing;
-          if (it->second->unsolicited(*this, incoming.data, response.data))
+          bool respond{ false };
+          try
+          {
+            respond = it->second->unsolicited(*this, incoming.data, response.data);
+          }
+          catch (const std::exception& e)
+          {
+            logger_("[TransportUnix] Endpoint " + incoming.endpoint + " failed on unsolicited data: " + e.what());
+          }
+          if (respond)
           {
             std::lock_guard<std::mutex> wlock(write_lock_);
             protocol::send(client_fd_, response);
@@ -432,8 +441,16 @@ bool TransportUnix::processMsg(const protocol::Msg& request, protocol::Msg& resp
   if (endpoint != nullptr)
   {
     Data outgoing;
-    // Let the endpoint handle the data and if necessary respond.
-    return endpoint->handle(*this, request.data, response.data);
+    try
+    {
+      // Let the endpoint handle the data and if necessary respond.
+      return endpoint->handle(*this, request.data, response.data);
+    }
+    catch (const std::exception& e)
+    {
+      // The endpoint can't handle this data; no response, but that shouldn't end the worker thread.
+      logger_("[TransportUnix] Endpoint " + request.endpoint + " failed to handle a request: " + e.what());
+    }
   }
   // @TODO handle requests to endpoints we don't have gracefully.
   return false;
-- 
2.43.0


From 75d0bc8fcac8b8da063119dc33a88f2db6bca5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 24/31] fix: an endpoint that fails does not end the loopback
 transport's worker thread

---
 scalopus_transport/src/transport_loopback.cpp | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/scalopus_transport/src/transport_loopback.cpp b/scalopus_transport/src/transport_loopback.cpp
index edf6f62..9704541 100644
--- a/scalopus_transport/src/transport_loopback.cpp
+++ b/scalopus_transport/src/transport_loopback.cpp
@@ -108,11 +108,19 @@ void TransportLoopback::work()
           continue;
         }
 
-        Data resp;
-        auto res = endpoint->handle(*server_, outgoing, resp);
-        if (res)
+        try
         {
-          promise.set_value(resp);
+          Data resp;
+          auto res = endpoint->handle(*server_, outgoing, resp);
+          if (res)
+          {
+            promise.set_value(resp);
+          }
+        }
+        catch (const std::exception&)
+        {
+          // The endpoint can't handle this data, pass that on instead of ending the worker thread.
+          promise.set_exception(std::current_exception());
         }
       }
       ongoing_requests_.clear();  // We processed all requests, we can clear them.
@@ -140,7 +148,16 @@ void TransportLoopback::work()
             if (endpoint != nullptr)
             {
               Data resp;
-              if (endpoint->unsolicited(*client, outgoing, resp))
+              bool respond{ false };
+              try
+              {
+                respond = endpoint->unsolicited(*client, outgoing, resp);
+              }
+              catch (const std::exception& e)
+              {
+                logger_("[TransportLoopback] Endpoint " + remote_endpoint_name + " failed on a broadcast: " + e.what());
+              }
+              if (respond)
               {
                 Data resp2;
                 auto server_endpoint = getEndpoint(remote_endpoint_name);
-- 
2.43.0


From 3be7af0e476f60aebc23b8168dfbe7123fce0028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 25/31] fix: a message that is not understood does not end the
 trace session's worker thread

---
 scalopus_catapult/src/trace_session.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index fc22111..0707a2c 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -76,7 +76,15 @@ void TraceSession::loop()
     // Handle any incoming messages from the websocket
     while (haveIncoming() && running_)
     {
-      processMessage(popIncoming());
+      try
+      {
+        processMessage(popIncoming());
+      }
+      catch (const std::exception& e)
+      {
+        // Not something we understand, that's no reason to end the worker thread.
+        logger_("[session " + identifier() + "] failed to process message: " + e.what());
+      }
     }
 
     // Perform work with the sources
-- 
2.43.0


From 640e8e0b5768e2217a2228da4b0fb6e85689c3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 26/31] fix: adding a source to a trace session races with its
 worker thread

---
 scalopus_catapult/src/trace_session.cpp | 11 +++++++++--
 scalopus_catapult/src/trace_session.h   |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index 0707a2c..f95722f 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -46,6 +46,8 @@ TraceSession::~TraceSession()
 
 void TraceSession::addSource(TraceEventSource::Ptr&& source)
 {
+  // The worker thread is already running and uses the sources.
+  std::lock_guard<decltype(sources_mutex_)> lock(sources_mutex_);
   sources_.push_back(source);
 }
 
@@ -88,9 +90,12 @@ void TraceSession::loop()
     }
 
     // Perform work with the sources
-    for (auto& source : sources_)
     {
-      source->work();
+      std::lock_guard<decltype(sources_mutex_)> lock(sources_mutex_);
+      for (auto& source : sources_)
+      {
+        source->work();
+      }
     }
 
     // Finally, block a bit just to prevent spinning.
@@ -104,6 +109,8 @@ void TraceSession::processMessage(const std::string& incoming_msg)
   logger_("[session " + identifier() + "] <- " + incoming_msg);
   auto msg = json::parse(incoming_msg);
 
+  std::lock_guard<decltype(sources_mutex_)> lock(sources_mutex_);
+
   if (msg["method"] == "Tracing.getCategories")
   {
     // This method is on the first record click, when we can specify the capture profile.
diff --git a/scalopus_catapult/src/trace_session.h b/scalopus_catapult/src/trace_session.h
index 8021426..4e04942 100644
--- a/scalopus_catapult/src/trace_session.h
+++ b/scalopus_catapult/src/trace_session.h
@@ -81,6 +81,7 @@ public:
 private:
   ResponseFunction response_;  //!< The function to be used to send data to the client over the websocket.
 
+  std::mutex sources_mutex_;                    //!< Mutex for the sources, these are added while the worker runs.
   std::vector<TraceEventSource::Ptr> sources_;  //!< The active sources in this session.
 
   mutable std::mutex incoming_mutex_;    //!< Mutex for list of incoming messages that are pending processing.
-- 
2.43.0


From 7bf7df5a01d5a4fc35f26d9545b3a916933bb859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:22 +0000
Subject: [PATCH 27/31] fix: trace mapping endpoint reads beyond an empty
 request

---
 scalopus_tracing/src/endpoint_trace_mapping.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalopus_tracing/src/endpoint_trace_mapping.cpp b/scalopus_tracing/src/endpoint_trace_mapping.cpp
index 100897b..4b266f9 100644
--- a/scalopus_tracing/src/endpoint_trace_mapping.cpp
+++ b/scalopus_tracing/src/endpoint_trace_mapping.cpp
@@ -51,7 +51,7 @@ bool EndpointTraceMapping::handle(Transport& /* server */, const Data& request,
   ProcessTraceMap mapping = { { ::getpid(), scalopus::StaticStringTracker::getInstance().getMap() } };
   // cool, we have the mappings... now we need to serialize this...
 
-  if (request.front() == 'm')
+  if (!request.empty() && request.front() == 'm')
   {
     json jdata = json::object();
     jdata["mapping"] = mapping;  // need to serialize an object, not an array.
-- 
2.43.0


From b934ba03205dc33a22be8938f3c34d971c6e39d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:26 +0000
Subject: [PATCH 28/31] fix: a process that does not answer gets an entry with
 an uninitialised process id

---
 .../include/scalopus_general/endpoint_process_info.h          | 2 +-
 scalopus_general/src/general_provider.cpp                     | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/scalopus_general/include/scalopus_general/endpoint_process_info.h b/scalopus_general/include/scalopus_general/endpoint_process_info.h
index 6662112..0c2a6d7 100644
--- a/scalopus_general/include/scalopus_general/endpoint_process_info.h
+++ b/scalopus_general/include/scalopus_general/endpoint_process_info.h
@@ -50,7 +50,7 @@ public:
   {
     std::string name;                              //!< Name of this process.
     std::map<unsigned long, std::string> threads;  //!< Names of the threads in this process.
-    int pid;                                       //!< Process id.
+    int pid{ 0 };                                  //!< Process id, zero if it is not known.
   };
 
   /**
diff --git a/scalopus_general/src/general_provider.cpp b/scalopus_general/src/general_provider.cpp
index 358af25..ea9255a 100644
--- a/scalopus_general/src/general_provider.cpp
+++ b/scalopus_general/src/general_provider.cpp
@@ -62,6 +62,10 @@ void GeneralProvider::updateMapping()
     if (endpoint_general != nullptr)
     {
       const auto process_mapping = endpoint_general->processInfo();
+      if (process_mapping.pid == 0)
+      {
+        continue;  // It did not answer.
+      }
       mapping_[process_mapping.pid] = process_mapping;
     }
   }
-- 
2.43.0


From d06a0b059175e918945adf3e21990977108aa268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:26 +0000
Subject: [PATCH 29/31] fix: one process that went away makes the names of all
 processes unavailable

---
 scalopus_general/src/general_provider.cpp       | 10 +++++++++-
 scalopus_tracing/src/scope_tracing_provider.cpp | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/scalopus_general/src/general_provider.cpp b/scalopus_general/src/general_provider.cpp
index ea9255a..219f7cc 100644
--- a/scalopus_general/src/general_provider.cpp
+++ b/scalopus_general/src/general_provider.cpp
@@ -61,7 +61,15 @@ void GeneralProvider::updateMapping()
     auto endpoint_general = EndpointManager::findEndpoint<scalopus::EndpointProcessInfo>(transport_endpoints.second);
     if (endpoint_general != nullptr)
     {
-      const auto process_mapping = endpoint_general->processInfo();
+      EndpointProcessInfo::ProcessInfo process_mapping;
+      try
+      {
+        process_mapping = endpoint_general->processInfo();
+      }
+      catch (const std::exception&)
+      {
+        continue;  // It went away, or its answer makes no sense; the others are still to be listed.
+      }
       if (process_mapping.pid == 0)
       {
         continue;  // It did not answer.
diff --git a/scalopus_tracing/src/scope_tracing_provider.cpp b/scalopus_tracing/src/scope_tracing_provider.cpp
index 2bee79b..2833422 100644
--- a/scalopus_tracing/src/scope_tracing_provider.cpp
+++ b/scalopus_tracing/src/scope_tracing_provider.cpp
@@ -64,7 +64,15 @@ void ScopeTracingProvider::updateMapping()
     if (endpoint_scope_tracing != nullptr)
     {
       // We found the correct endpoint, retrieve its mappings.
-      const auto process_mapping = endpoint_scope_tracing->mapping();
+      EndpointTraceMapping::ProcessTraceMap process_mapping;
+      try
+      {
+        process_mapping = endpoint_scope_tracing->mapping();
+      }
+      catch (const std::exception&)
+      {
+        continue;  // It went away, or its answer makes no sense; the others are still to be listed.
+      }
 
       // Insert the mappings into the accumulated map.
       mapping.insert(process_mapping.begin(), process_mapping.end());
-- 
2.43.0


From f05210ed87630b20d4a055f3fc16e4342ce76b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:44 +0000
Subject: [PATCH 30/31] fix: setting the process name races with requests for
 it

---
 .../include/scalopus_general/endpoint_process_info.h          | 4 +++-
 scalopus_general/src/endpoint_process_info.cpp                | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/scalopus_general/include/scalopus_general/endpoint_process_info.h b/scalopus_general/include/scalopus_general/endpoint_process_info.h
index 0c2a6d7..eb91e20 100644
--- a/scalopus_general/include/scalopus_general/endpoint_process_info.h
+++ b/scalopus_general/include/scalopus_general/endpoint_process_info.h
@@ -32,6 +32,7 @@
 
 #include <scalopus_interface/transport.h>
 #include <map>
+#include <mutex>
 #include <string>
 
 namespace scalopus
@@ -80,7 +81,8 @@ public:
   bool handle(Transport& server, const Data& request, Data& response);
 
 private:
-  ProcessInfo info_;  //!< The process info.
+  std::mutex info_mutex_;  //!< Mutex for the process info; requests are handled by the transport's thread.
+  ProcessInfo info_;       //!< The process info.
 };
 
 }  // namespace scalopus
diff --git a/scalopus_general/src/endpoint_process_info.cpp b/scalopus_general/src/endpoint_process_info.cpp
index 53eb6fc..7a9bd63 100644
--- a/scalopus_general/src/endpoint_process_info.cpp
+++ b/scalopus_general/src/endpoint_process_info.cpp
@@ -54,6 +54,7 @@ EndpointProcessInfo::EndpointProcessInfo()
 
 void EndpointProcessInfo::setProcessName(const std::string& process_name)
 {
+  std::lock_guard<decltype(info_mutex_)> lock(info_mutex_);
   info_.name = process_name;
 }
 
@@ -64,6 +65,7 @@ bool EndpointProcessInfo::handle(Transport& /* server */, const Data& request, D
   // Request is process name:
   if (req["cmd"].get<std::string>() == "info")
   {
+    std::lock_guard<decltype(info_mutex_)> lock(info_mutex_);
     json jdata = json::object();
     jdata["pid"] = info_.pid;
     jdata["name"] = info_.name;
-- 
2.43.0


From 1bbb244bbb1275f01e435c9f0e45f9002270bbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:44 +0000
Subject: [PATCH 31/31] fix: a source that fails to collect its events does not
 keep the other events from being sent

---
 scalopus_catapult/src/trace_session.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scalopus_catapult/src/trace_session.cpp b/scalopus_catapult/src/trace_session.cpp
index f95722f..3375fbd 100644
--- a/scalopus_catapult/src/trace_session.cpp
+++ b/scalopus_catapult/src/trace_session.cpp
@@ -147,8 +147,16 @@ void TraceSession::processMessage(const std::string& incoming_msg)
     std::vector<json> events;
     for (auto& source : sources_)
     {
-      auto results = source->finishInterval();
-      events.insert(events.end(), results.begin(), results.end());
+      try
+      {
+        auto results = source->finishInterval();
+        events.insert(events.end(), results.begin(), results.end());
+      }
+      catch (const std::exception& e)
+      {
+        // The events of the other sources are still to be sent.
+        logger_("[session " + identifier() + "] failed to collect events: " + e.what());
+      }
     }
     chunkedTransmit(events);
 
-- 
2.43.0

