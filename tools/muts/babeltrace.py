F='scalopus_tracing/src/lttng/babeltrace_parser.cpp'
H='scalopus_tracing/include_consumer/scalopus_tracing/babeltrace_parser.h'
LOOP="""          for (auto it = sessions_recording_.begin(); it != sessions_recording_.end();)
          {
            if (!(*it)->call(event))
            {
              // session went inactive, remove it.
              std::stringstream ss;
              ss << "[BabeltraceParser] callback inactive: " << it->get();
              logger_(ss.str());
              it = sessions_recording_.erase(it);
              continue;
            }
            it++;
          }
"""
GL="""      char* buffer = nullptr;
      std::size_t buffer_size = 0;
      const ssize_t length = ::getline(&buffer, &buffer_size, stdout);
      if (length > 0)
      {
        line.assign(buffer, static_cast<std::size_t>(length));
      }
      std::free(buffer);
"""
P=['C23']
def bug(n,*ed): return dict(name=n,props=P,kind='bug',edits=list(ed))
def same(n,*ed): return dict(name=n,props=P,kind='same',edits=list(ed))
M=[
 bug('erase skips next',(F,"              it = sessions_recording_.erase(it);\n              continue;","              it = sessions_recording_.erase(it);\n              if (it == sessions_recording_.end())\n              {\n                break;\n              }")),
 bug('break after drop',(F,"              it = sessions_recording_.erase(it);\n              continue;","              sessions_recording_.erase(it);\n              break;")),
 bug('restart after drop',(F,"              it = sessions_recording_.erase(it);\n              continue;","              sessions_recording_.erase(it);\n              it = sessions_recording_.begin();\n              continue;")),
 bug('inactive kept',(F,"              it = sessions_recording_.erase(it);\n              continue;","              it++;\n              continue;")),
 bug('only one dropped per line, rest skipped',(F,"              it = sessions_recording_.erase(it);\n              continue;\n            }\n            it++;\n          }","              it = sessions_recording_.erase(it);\n              if (it != sessions_recording_.end()) it++;\n              continue;\n            }\n            it++;\n          }")),
 bug('fgets 1024',(F,GL,"      char buffer[1024];\n      if (fgets(buffer, sizeof(buffer), stdout) != nullptr)\n      {\n        line = buffer;\n      }\n")),
 bug('length off by one',(F,"static_cast<std::size_t>(length));","static_cast<std::size_t>(length) - 1);")),
 bug('parse per callback skipped line',(F,"auto event = parse(line);","const auto event = parse(line.substr(0, 1023));")),
 bug('no lock',(F,"        std::lock_guard<std::mutex> lock(mutex_);\n        if (!sessions","        if (!sessions")),
 bug('stops on eof before passing',(F,"      if (!line.empty())\n","      if (!line.empty() && !std::feof(stdout))\n")),
 bug('stops after empty select',(F,"    if (select_result == -1)\n    {\n      continue;","    if (select_result <= 0)\n    {\n      break;")),
 bug('static event',(F,"          auto event = parse(line);","          static auto event = parse(line);")),
 bug('empty sessions skip one',(F,"if (!sessions_recording_.empty())","if (sessions_recording_.size() > 1)")),
 bug('setCallback unlocked',(F,"  std::lock_guard<std::mutex> lock(mutex_);\n  std::stringstream ss;","  std::stringstream ss;")),
 bug('setCallback replaces',(F,"  sessions_recording_.insert(callback);","  if (!sessions_recording_.empty() && !(*sessions_recording_.begin())->active)\n  {\n    sessions_recording_.erase(sessions_recording_.begin());\n    return;\n  }\n  sessions_recording_.insert(callback);")),
 bug('halt keeps processing',(F,"  processing_.store(false);\n  std::lock_guard<std::mutex> lock(mutex_);\n","  std::lock_guard<std::mutex> lock(mutex_);\n")),
 bug('halt without clear',(F,"  sessions_recording_.clear();\n","")),
 bug('call ignores active',(H,"      if (active && callback)","      if (callback)"),(H,"      active = false;\n      callback = nullptr;","      active = false;")),
 bug('call unlocked',(H,"      std::lock_guard<std::recursive_mutex> lock(mutex);\n      if (active","      if (active")),
 bug('disable unlocked',(H,"      std::lock_guard<std::recursive_mutex> lock(mutex);\n      active","      active")),
 bug('disable keeps active',(H,"      active = false;\n      callback = nullptr;","      callback = nullptr;")),
 bug('call true always',(H,"      return active;","      return true;")),
 bug('call inverted result',(H,"      return active;","      return callback != nullptr;")),
 bug('call copies out of lock',(H,"      std::lock_guard<std::recursive_mutex> lock(mutex);\n      if (active && callback)\n      {\n        callback(event);\n      }\n      return active;","      std::function<void(const CTFEvent& event)> f;\n      {\n        std::lock_guard<std::recursive_mutex> lock(mutex);\n        if (!active)\n        {\n          return false;\n        }\n        f = callback;\n      }\n      if (f)\n      {\n        f(event);\n      }\n      return true;")),
 bug('processing on exception in write set',(F,"    if (FD_ISSET(fd, &except_fds))","    if (FD_ISSET(fd, &read_fds))")),
 same('R for with insert order',(F,"            it++;\n          }","            ++it;\n          }")),
 same('R else',(F,"              it = sessions_recording_.erase(it);\n              continue;\n            }\n            it++;","              it = sessions_recording_.erase(it);\n            }\n            else\n            {\n              ++it;\n            }")),
 same('R erase post inc',(F,"              it = sessions_recording_.erase(it);\n","              sessions_recording_.erase(it++);\n")),
 same('R helper',(F,LOOP,"          pass(event);\n"),(F,"void BabeltraceParser::process(FILE","void BabeltraceParser::pass(const CTFEvent& event)\n{\n"+LOOP+"}\n\nvoid BabeltraceParser::process(FILE"),(H,"  std::atomic_bool processing_","  void pass(const CTFEvent& event);\n  std::atomic_bool processing_")),
 same('R two passes',(F,LOOP,"          std::vector<std::shared_ptr<EventCallback>> gone;\n          for (const auto& session : sessions_recording_)\n          {\n            if (!session->call(event))\n            {\n              gone.push_back(session);\n            }\n          }\n          for (const auto& session : gone)\n          {\n            sessions_recording_.erase(session);\n          }\n"),(F,"#include <sstream>","#include <sstream>\n#include <vector>")),
 same('R always parse',(F,"        if (!sessions_recording_.empty())\n        {","        {")),
 same('R reuse fdset order',(F,"    FD_SET(fd, &read_fds);\n    FD_SET(fd, &except_fds);","    FD_SET(fd, &except_fds);\n    FD_SET(fd, &read_fds);")),
 same('R fdset inside',(F,"    FD_SET(fd, &read_fds);\n    FD_SET(fd, &except_fds);","    FD_ZERO(&read_fds);\n    FD_ZERO(&except_fds);\n    FD_SET(fd, &read_fds);\n    FD_SET(fd, &except_fds);")),
 same('R halt lock first',(F,"  processing_.store(false);\n  std::lock_guard<std::mutex> lock(mutex_);\n","  std::lock_guard<std::mutex> lock(mutex_);\n  processing_ = false;\n")),
 same('R call early return',(H,"      if (active && callback)\n      {\n        callback(event);\n      }\n      return active;","      if (!active)\n      {\n        return false;\n      }\n      if (callback)\n      {\n        callback(event);\n      }\n      return active;")),
 same('R fgets loop',(F,GL,"      char buffer[1024];\n      while (fgets(buffer, sizeof(buffer), stdout) != nullptr)\n      {\n        line += buffer;\n        if (line.back() == '\\n')\n        {\n          break;\n        }\n      }\n")),
 same('R emplace',(F,"sessions_recording_.insert(callback);","sessions_recording_.emplace(callback);")),
 same('R strip newline',(F,"      if (!line.empty())\n","      if (!line.empty() && line.back() == '\\n')\n      {\n        line.pop_back();\n      }\n      if (!line.empty())\n")),
 same('R unique_lock',(F,"        std::lock_guard<std::mutex> lock(mutex_);\n        if (!sessions","        std::unique_lock<std::mutex> lock(mutex_);\n        if (!sessions")),
 same('R swap clear',(F,"  sessions_recording_.clear();","  decltype(sessions_recording_) none;\n  sessions_recording_.swap(none);")),
]
