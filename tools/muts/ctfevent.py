F='scalopus_tracing/src/lttng/ctfevent.cpp'
P=['C15']
def bug(n,*ed): return dict(name=n,props=P,kind='bug',edits=[(F,)+e if e[0]!=F and len(e)==2 else e for e in ed])
def same(n,*ed): return dict(name=n,props=P,kind='same',edits=[(F,)+e if len(e)==2 else e for e in ed])
GR='''    std::string res = str.substr(open + 1, close - open - 1);
    if (!res.empty() && res.front() == ' ')
    {
      res.erase(0, 1);
    }
    if (!res.empty() && res.back() == ' ')
    {
      res.pop_back();
    }
    return res;
'''
LOOP='''    size_t start = 0;
    size_t end = 0;
    while (end != csv.size())
    {
      size_t potential = csv.find(", ", start);  // delimiter between the key-value entries.
      size_t end_shift = 0;
      if (potential == std::string::npos)
      {
        // didn't find the delimiter, string to use is the entires tring.
        end = csv.size();
        end_shift = 0;
      }
      else
      {
        end = potential;
        end_shift = 2;  // length of ", "
      }
      // grab the 'key = value' string
      std::string kvpair = csv.substr(start, end - start);
      start = end + end_shift;
'''
M=[
 bug('time first bracket pair',('line.find("]", start_pos == std::string::npos ? 0 : start_pos)','line.find("]")')),
 bug('time only invalid_argument',('catch (const std::logic_error&)  // invalid_argument, or out_of_range if it does not fit a double.','catch (const std::invalid_argument&)')),
 bug('time one too few',('line.substr(start_pos + 1, end_pos - start_pos - 1);\n  try','line.substr(start_pos + 1, end_pos - start_pos - 2);\n  try')),
 bug('time as float',('timestamp_ = std::stod(timestamp_str);','timestamp_ = std::stof(timestamp_str);')),
 bug('time not reset',('    return;\n  }\n\n  // Go for','    timestamp_ = -1.0;\n    return;\n  }\n\n  // Go for')),
 bug('colon kept',('    trace_point.pop_back();  // removal of the \':\' that ends the specification.\n','')),
 bug('colon not checked',('!trace_point.empty() && trace_point.back()','trace_point.back()')),
 bug('rfind colon',('trace_point.find(":")','trace_point.rfind(":")')),
 bug('name keeps colon',('trace_point.substr(split_point + 1, trace_point.size() - split_point)','trace_point.substr(split_point, trace_point.size() - split_point)')),
 bug('trace data close from any',('  start_pos = end_pos;\n  start_pos = line.find("{", start_pos);\n  end_pos = line.find("}", start_pos + 1);\n  if (start_pos == std::string::npos || end_pos == std::string::npos)\n  {\n    return;\n  }\n  std::string trace_data','  start_pos = end_pos;\n  start_pos = line.find("{", start_pos);\n  end_pos = line.rfind("}");\n  if (start_pos == std::string::npos || end_pos == std::string::npos)\n  {\n    return;\n  }\n  std::string trace_data')),
 bug('group fixed trim',(GR,'    return str.substr(open + 2, close - open - 3);\n')),
 bug('group no back check',('if (!res.empty() && res.back() == \' \')','if (res.back() == \' \')')),
 bug('group trims all back',('    if (!res.empty() && res.back() == \' \')\n','    while (!res.empty() && res.back() != \'}\' && (res.back() < \'0\' || res.back() > \'9\'))\n')),
 bug('swapped groups',('event_context_ = processContext(event_context);','event_context_ = processContext(stream_context);')),
 bug('only invalid_argument in entry',('catch (const std::logic_error&)  // invalid_argument, or out_of_range if it does not fit.','catch (const std::invalid_argument&)')),
 bug('stoul int',('std::stoull(value)','std::stoi(value)')),
 bug('stoull hex',('std::stoull(value)','std::stoull(value, nullptr, 0)')),
 bug('delimiter comma',('csv.find(", ", start)','csv.find(",", start)')),
 bug('break at non pair',('        continue;\n      }\n      std::string key','        break;\n      }\n      std::string key')),
 bug('break at text value',('      catch (const std::logic_error&)  // invalid_argument, or out_of_range if it does not fit.\n      {\n','      catch (const std::logic_error&)\n      {\n        break;\n')),
 bug('last entry lost',('    while (end != csv.size())','    while (csv.find(", ", start) != std::string::npos)')),
 bug('rfind equals',('kvpair.find(" = ")','kvpair.rfind(" = ")')),
 bug('equals w/o spaces',('kvpair.find(" = ")','kvpair.find("=")'),('kvsplit_point + 3','kvsplit_point + 1')),
 bug('key trimmed early',('kvpair.substr(0, kvsplit_point)','kvpair.substr(0, std::min<size_t>(kvsplit_point, 15))')),
 bug('first wins but stale',('        res[key] = std::stoull(value);','        res[key];\n        res[key] = std::stoull(value);')),
 bug('value truncated',('res[key] = std::stoull(value)','res[key] = static_cast<unsigned int>(std::stoull(value))')),
 bug('value at most 19 digits',('res[key] = std::stoull(value)','res[key] = std::stoull(value.substr(0, 19))')),
 bug('empty key skipped is entry',('      std::string value =','      if (key.empty())\n      {\n        continue;\n      }\n      std::string value =')),
 bug('max entries',('    while (end != csv.size())','    while (end != csv.size() && res.size() < 16)')),
 bug('line trimmed',('  line_ = line;','  line_ = line;\n  if (!line_.empty() && line_.back() == \'\\n\')\n  {\n    line_.pop_back();\n  }')),
 bug('static buffer time default',('  line_ = line;','  line_ = line;\n  timestamp_ = 1.0;')),
 bug('accessor data',('return tracepoint_data_;','return event_context_;')),
 bug('tid is pid',('return event_context_.at("pthread_id");','return event_context_.at("vpid");')),
 same('R find chars',('line.find("[")',"line.find('[')"),('trace_point.find(":")',"trace_point.find(':')")),
 same('R helper braces',('  // Obtain the stream context between','  const std::string::size_type none = std::string::npos;\n  // Obtain the stream context between'),('  if (start_pos == std::string::npos || end_pos == std::string::npos)\n  {\n    return;\n  }\n  std::string stream_context','  if (start_pos == none || end_pos == none)\n  {\n    return;\n  }\n  std::string stream_context')),
 same('R const ref param',('auto processContext = [](std::string csv)','auto processContext = [](const std::string& csv)')),
 same('R static functions',('  auto processContext = [](std::string csv) -> std::map<std::string, unsigned long long int> {\n','  struct Parser\n  {\n    static std::map<std::string, unsigned long long int> parse(const std::string& csv)\n    {\n'),('    return res;\n  };\n\n  // convert','    return res;\n  }\n  };\n\n  // convert'),('processContext(stream_context)','Parser::parse(stream_context)'),('processContext(event_context)','Parser::parse(event_context)'),('processContext(trace_data)','Parser::parse(trace_data)')),
 same('R loop break form',(LOOP,'''    size_t start = 0;
    bool more = true;
    while (more)
    {
      const size_t potential = csv.find(", ", start);
      more = potential != std::string::npos;
      std::string kvpair = csv.substr(start, more ? potential - start : std::string::npos);
      start = potential + 2;
''')),
 same('R if not continue',('''      if (kvsplit_point == std::string::npos)  // not a key value pair, or an empty { } for this context.
      {
        continue;
      }
      std::string key = kvpair.substr(0, kvsplit_point);
      std::string value = kvpair.substr(kvsplit_point + 3);  // 3 is length of " = "
      try
      {
        // if value is a string, this will fail, we need to catch that.
        res[key] = std::stoull(value);
      }
      catch (const std::logic_error&)  // invalid_argument, or out_of_range if it does not fit.
      {
      }
''','''      if (kvsplit_point != std::string::npos)
      {
        const std::string key = kvpair.substr(0, kvsplit_point);
        try
        {
          const unsigned long long int number = std::stoull(kvpair.substr(kvsplit_point + 3));
          res[key] = number;
        }
        catch (const std::logic_error&)
        {
        }
      }
''')),
 same('R group trims',(GR,'''    size_t first = open + 1;
    size_t last = close;
    if (first < last && str[first] == ' ')
    {
      first++;
    }
    if (first < last && str[last - 1] == ' ')
    {
      last--;
    }
    return str.substr(first, last - first);
''')),
 same('R no early empty',('''  if (line.empty())
  {
    // should we panic here? This shouldn't happen.
    return;
  }
''','')),
 same('R emplace',('res[key] = std::stoull(value);','res.emplace(key, std::stoull(value));')),
 same('R move line',('CTFEvent::CTFEvent(std::string line)\n{','CTFEvent::CTFEvent(std::string text)\n{\n  const std::string& line = text;')),
 same('R assign late',('  stream_context_ = processContext(stream_context);\n  event_context_ = processContext(event_context);','  auto first = processContext(stream_context);\n  event_context_ = processContext(event_context);\n  stream_context_ = std::move(first);')),
]
