F = 'scalopus_transport/src/transport_unix.cpp'
M = []
def bug(n, *e): M.append(dict(name=n, props=['C19'], kind='bug', edits=[(F, a, b) for a, b in e]))
def same(n, *e): M.append(dict(name=n, props=['C19'], kind='same', edits=[(F, a, b) for a, b in e]))
FL = '''    if (flags != listening)
    {
      continue;
    }
'''
PC = '''path.size() <= suffix.size() + 1 || path.front() != '@' || path.substr(path.size() - suffix.size()) != suffix'''
NUMC = '''pid.find_first_not_of("0123456789") != std::string::npos || pid.size() > std::numeric_limits<unsigned int>::digits10'''
FIELDS = '''    if (fields.fail() || (fields >> excess))
    {
      continue;  // not as many fields as a line of interest has.
    }
'''
bug('flags not looked at', (FL, ''))
bug('flags prefix', ('flags != listening', 'flags.substr(0, 3) != "000"'))
bug('not connected instead of listening', ('flags != listening', 'state != "01"'))
bug('inode instead of flags', ('flags != listening', 'inode == "0"'))
bug('listening or refs', ('flags != listening', 'flags != listening && ref_count == "00000002"'))
bug('no at check', ("path.front() != '@' || ", ''))
bug('no digit check', ('pid.find_first_not_of("0123456789") != std::string::npos || ', ''))
bug('digit check of first', ('pid.find_first_not_of("0123456789") != std::string::npos', 'pid.find_first_of("0123456789") == std::string::npos'))
bug('no length check', (' || pid.size() > std::numeric_limits<unsigned int>::digits10', ''))
bug('short pids only', ('pid.size() > std::numeric_limits<unsigned int>::digits10', 'pid.size() > 6'))
bug('excess not looked at', ('fields.fail() || (fields >> excess)', 'fields.fail()'))
bug('pid without first digit', ('path.substr(1, path', 'path.substr(2, path'))
bug('pid with a char of suffix', ('path.size() - suffix.size() - 1);', 'path.size() - suffix.size());'))
bug('break at first other', (FL, FL.replace('continue', 'break')))
bug('break at malformed', (FIELDS, FIELDS.replace('continue', 'break')))
bug('heading skipped as server', ('  while (std::getline(infile, line))', '  std::getline(infile, line);\n  while (std::getline(infile, line))'))
bug('other file', ('"/proc/net/unix"', '"/proc/self/net/packet"'))
bug('no duplicates adjacent', ('    res.emplace_back(std::strtoul(pid.c_str(), nullptr, 10));', '    if (res.empty() || res.back() < std::strtoul(pid.c_str(), nullptr, 10))\n      res.emplace_back(std::strtoul(pid.c_str(), nullptr, 10));'))
bug('base 16', ('pid.c_str(), nullptr, 10', 'pid.c_str(), nullptr, 16'))
bug('front', ('res.emplace_back(std::strtoul(pid.c_str(), nullptr, 10));', 'res.assign(1, std::strtoul(pid.c_str(), nullptr, 10));'))
bug('at most 64', ('  while (std::getline(infile, line))', '  while (std::getline(infile, line) && res.size() < 64)'))
bug('one digit pid', ('path.size() <= suffix.size() + 1', 'path.size() <= suffix.size() + 2'))
bug('discover skips own', ('    res.push_back(std::make_shared<DestinationUnix>(pid));', '    if (pid != static_cast<std::size_t>(::getpid()))\n      res.push_back(std::make_shared<DestinationUnix>(pid));'))
bug('discover short', ('std::make_shared<DestinationUnix>(pid)', 'std::make_shared<DestinationUnix>(static_cast<unsigned short>(pid))'))
bug('hash short', ('  return pid_;', '  return pid_ & 0xffff;'))
bug('ctor masks', ('DestinationUnix::DestinationUnix(unsigned int pid) : pid_(pid)', 'DestinationUnix::DestinationUnix(unsigned int pid) : pid_(pid & 0x3fffff)'))

same('R strtoull', ('std::strtoul(pid.c_str(), nullptr, 10)', 'std::strtoull(pid.c_str(), nullptr, 10)'))
same('R stoul', ('std::strtoul(pid.c_str(), nullptr, 10)', 'std::stoul(pid)'))
same('R compare', ('path.substr(path.size() - suffix.size()) != suffix', 'path.compare(path.size() - suffix.size(), suffix.size(), suffix) != 0'))
same('R compare flags', ('flags != listening', '!(flags == listening)'))
same('R order', (FL, ''), ('    // We got a hit', FL + '    // We got a hit'))
same('R negated ifs', (FL, ''), ('    res.emplace_back(std::strtoul(pid.c_str(), nullptr, 10));', '    if (flags == listening)\n    {\n      res.emplace_back(std::strtoul(pid.c_str(), nullptr, 10));\n    }'))
same('R push_back', ('res.emplace_back(std::strtoul', 'res.push_back(std::strtoul'))
same('R chain of extractions', ('    fields >> num >> ref_count >> protocol >> flags >> type >> state >> inode >> path;', '    fields >> num >> ref_count;\n    fields >> protocol >> flags;\n    fields >> type >> state >> inode >> path;'))
same('R helper', ('std::vector<std::size_t> TransportUnix::getTransportServers()', 'static bool isNumber(const std::string& s)\n{\n  return s.find_first_not_of("0123456789") == std::string::npos;\n}\n\nstd::vector<std::size_t> TransportUnix::getTransportServers()'), ('pid.find_first_not_of("0123456789") != std::string::npos', '!isNumber(pid)'))
same('R discover indexed', ('  for (const auto& pid : TransportUnix::getTransportServers())\n  {\n    res.push_back(std::make_shared<DestinationUnix>(pid));\n  }', '  const auto pids = TransportUnix::getTransportServers();\n  for (std::size_t i = 0; i < pids.size(); i++)\n  {\n    res.emplace_back(std::make_shared<DestinationUnix>(pids[i]));\n  }'))
same('R reserve', ('  for (const auto& pid : TransportUnix::getTransportServers())\n', '  const auto pids = TransportUnix::getTransportServers();\n  res.reserve(pids.size());\n  for (const auto& pid : pids)\n'))
same('R string_ref var', ('      continue;  // not as many fields as a line of interest has.', '      // not as many fields as a line of interest has.\n      continue;'))
same('R while true', ('  while (std::getline(infile, line))\n  {', '  while (true)\n  {\n    if (!std::getline(infile, line))\n    {\n      break;\n    }'))
same('R path digits char loop', ('pid.find_first_not_of("0123456789") != std::string::npos', '!std::all_of(pid.begin(), pid.end(), [](char c) { return c >= \'0\' && c <= \'9\'; })'))
