F = 'scalopus_transport/src/protocol.cpp'
M = [
 dict(name='short read', props=['C01','C02'], kind='bug', edits=[(F, "    // A stream socket may hand out less than requested, read on until we have it all.\n", "    if (static_cast<size_t>(chunk_received) < chunk_size) break;\n")]),
 dict(name='eof after exact chunk accepted', props=['C02'], kind='bug', edits=[(F, "    if (chunk_received == 0)\n    {\n      // end of file.\n      return false;", "    if (chunk_received == 0)\n    {\n      // end of file.\n      return received >= chunk_size;")]),
 dict(name='reads whole chunk beyond', props=['C01','C02'], kind='bug', edits=[(F, "std::min(length - received, chunk_size)", "std::min(length, chunk_size)")]),
 dict(name='memcpy to start', props=['C01'], kind='bug', edits=[(F, "std::memcpy(&incoming[received]", "std::memcpy(&incoming[0]")]),
 dict(name='err ignored', props=['C02'], kind='bug', edits=[(F, "return false;  // this should not happen", "break;  // this should not happen")]),
 dict(name='name len off', props=['C01'], kind='bug', edits=[(F, "incoming.endpoint.resize(length_endpoint_name);", "incoming.endpoint.resize(length_endpoint_name & 0xfff);")]),
 dict(name='data sent with truncated len', props=['C01'], kind='bug', edits=[(F, "::send(fd, outgoing.data.data(), outgoing.data.size(), MSG_NOSIGNAL)", "::send(fd, outgoing.data.data(), outgoing.data.size() & 0xffff, MSG_NOSIGNAL)")]),
 dict(name='short payload send accepted', props=['C01'], kind='bug', edits=[(F, "  if (::send(fd, outgoing.data.data(), outgoing.data.size(), MSG_NOSIGNAL) !=\n      static_cast<ssize_t>(outgoing.data.size()))", "  if (::send(fd, outgoing.data.data(), outgoing.data.size(), MSG_NOSIGNAL) < 0)")]),
 dict(name='sigpipe', props=['C01'], kind='bug', edits=[(F, "length_endpoint_name, MSG_NOSIGNAL)", "length_endpoint_name, 0)")]),
 dict(name='empty data skipped len', props=['C01'], kind='bug', edits=[(F, "  // Send data length\n", "  // Send data length\n  if (outgoing.data.empty()) return true;\n")]),
 dict(name='R for loop', props=['C01','C02'], kind='same', edits=[(F, "  while (true)\n  {\n    ssize_t", "  for (;;)\n  {\n    ssize_t")]),
 dict(name='R do-while with remaining', props=['C01','C02'], kind='same', edits=[(F, """  size_t received{ 0 };
  while (true)
  {
    ssize_t chunk_received = ::read(fd, buf.data(), std::min(length - received, chunk_size));""", """  size_t received{ 0 };
  size_t remaining = length;
  while (true)
  {
    const size_t want = remaining < chunk_size ? remaining : chunk_size;
    ssize_t chunk_received = ::read(fd, buf.data(), want);"""), (F, "    received += static_cast<size_t>(chunk_received);\n", "    received += static_cast<size_t>(chunk_received);\n    remaining -= static_cast<size_t>(chunk_received);\n"), (F, "if (received == length)", "if (remaining == 0)")]),
 dict(name='R insert instead of memcpy', props=['C01','C02'], kind='same', edits=[(F, """    incoming.resize(received + static_cast<size_t>(chunk_received));
    std::memcpy(&incoming[received], buf.data(), static_cast<size_t>(chunk_received));
""", "    incoming.insert(incoming.end(), buf.data(), buf.data() + chunk_received);\n")]),
 dict(name='R read directly', props=['C01','C02'], kind='same', edits=[(F, """  incoming.resize(0);
  incoming.reserve(chunk_size);
""", "  incoming.resize(length);\n  if (length == 0) return true;\n"),(F,"::read(fd, buf.data(), std::min(length - received, chunk_size))","::read(fd, incoming.data() + received, length - received)"),(F,"""    incoming.resize(received + static_cast<size_t>(chunk_received));
    std::memcpy(&incoming[received], buf.data(), static_cast<size_t>(chunk_received));
""","")]),
 dict(name='R helper template readInto', props=['C01','C02'], kind='same', edits=[(F, "bool receive(int fd, Msg& incoming)\n{", """template <typename T>
static bool readValue(int fd, T& value)
{
  Data tmp;
  if (!readData(fd, sizeof(T), tmp)) { return false; }
  std::memcpy(&value, tmp.data(), sizeof(T));
  return true;
}

bool receive(int fd, Msg& incoming)
{"""),(F,"""  if (readData(fd, sizeof(incoming.request_id), tmp))
  {
    incoming.request_id = *reinterpret_cast<decltype(incoming.request_id)*>(tmp.data());
  }
  else
  {""","  if (!readValue(fd, incoming.request_id))\n  {"),(F,"""  if (readData(fd, sizeof(length_data), tmp))
  {
    length_data = *reinterpret_cast<decltype(length_data)*>(tmp.data());
  }
  else
  {""","  if (!readValue(fd, length_data))\n  {")]),
 dict(name='R send helper', props=['C01'], kind='same', edits=[(F,"bool send(int fd, const Msg& outgoing)\n{","""static bool sendAll(int fd, const void* p, size_t n)
{
  return ::send(fd, p, n, MSG_NOSIGNAL) == static_cast<ssize_t>(n);
}

bool send(int fd, const Msg& outgoing)
{"""),(F,"""  if (::send(fd, outgoing.endpoint.data(), length_endpoint_name, MSG_NOSIGNAL) !=
      static_cast<ssize_t>(length_endpoint_name))""","  if (!sendAll(fd, outgoing.endpoint.data(), length_endpoint_name))"),(F,"""  if (::send(fd, &length_data, sizeof(length_data), MSG_NOSIGNAL) != static_cast<ssize_t>(sizeof(length_data)))""","  if (!sendAll(fd, &length_data, sizeof(length_data)))")]),
 dict(name='R receive early returns, assign', props=['C01','C02'], kind='same', edits=[(F,"""    incoming.endpoint.resize(length_endpoint_name);
    std::memcpy(&incoming.endpoint[0], tmp.data(), length_endpoint_name);
""","    incoming.endpoint.assign(tmp.begin(), tmp.end());\n")]),
 dict(name='R single buffer send', props=['C01'], kind='same', edits=[(F,"""  // Send data length
  if (::send(fd, &length_data, sizeof(length_data), MSG_NOSIGNAL) != static_cast<ssize_t>(sizeof(length_data)))
  {
    return false;
  }

  // Send data
  if (::send(fd, outgoing.data.data(), outgoing.data.size(), MSG_NOSIGNAL) !=
      static_cast<ssize_t>(outgoing.data.size()))
  {
    return false;
  }
  return true;""","""  Data tail(sizeof(length_data) + outgoing.data.size());
  std::memcpy(tail.data(), &length_data, sizeof(length_data));
  std::memcpy(tail.data() + sizeof(length_data), outgoing.data.data(), outgoing.data.size());
  return ::send(fd, tail.data(), tail.size(), MSG_NOSIGNAL) == static_cast<ssize_t>(tail.size());""")]),
 dict(name='R send all loop', props=['C01'], kind='same', edits=[(F,"bool send(int fd, const Msg& outgoing)\n{","""static bool sendAll(int fd, const unsigned char* p, size_t n)
{
  size_t done = 0;
  while (done < n)
  {
    ssize_t r = ::send(fd, p + done, n - done, MSG_NOSIGNAL);
    if (r < 0) { return false; }
    done += static_cast<size_t>(r);
  }
  return true;
}

bool send(int fd, const Msg& outgoing)
{"""),(F,"""  if (::send(fd, outgoing.data.data(), outgoing.data.size(), MSG_NOSIGNAL) !=
      static_cast<ssize_t>(outgoing.data.size()))""","  if (!sendAll(fd, outgoing.data.data(), outgoing.data.size()))")]),
]
