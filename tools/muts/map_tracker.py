F='scalopus_general/include/scalopus_general/map_tracker.h'
INS="    std::unique_lock<decltype(mutex_)> lock(mutex_);\n    mapping_[key] = value;\n"
GV="    std::shared_lock<decltype(mutex_)> lock(mutex_);\n    return mapping_.at(k);\n"
EX="    std::shared_lock<decltype(mutex_)> lock(mutex_);\n    return mapping_.find(k) != mapping_.end();\n"
M=[
 dict(name='insert keeps old', props=['C09'], kind='bug', edits=[(F,"mapping_[key] = value;","mapping_.emplace(key, value);")]),
 dict(name='insert shared lock', props=['C09'], kind='bug', edits=[(F,INS,INS.replace("unique","shared"))]),
 dict(name='getValue default', props=['C09'], kind='bug', edits=[(F,"return mapping_.at(k);","const auto it = mapping_.find(k);\n    return it == mapping_.end() ? Value{} : it->second;")]),
 dict(name='getValue check-then-act', props=['C09'], kind='bug', edits=[(F,"  Value getValue(const Key& k) const\n  {\n"+GV,"  Value getValue(const Key& k) const\n  {\n    if (!exists(k))\n    {\n      throw std::out_of_range(\"key\");\n    }\n    std::shared_lock<decltype(mutex_)> lock(mutex_);\n    return mapping_.find(k)->second;\n")]),
 dict(name='exists unlocked', props=['C09'], kind='bug', edits=[(F,EX,"    return mapping_.find(k) != mapping_.end();\n")]),
 dict(name='erase two sections', props=['C09'], kind='bug', edits=[(F,"    std::unique_lock<decltype(mutex_)> lock(mutex_);\n    mapping_.erase(key);","    typename MapType::const_iterator it;\n    {\n      std::shared_lock<decltype(mutex_)> lock(mutex_);\n      it = mapping_.find(key);\n      if (it == mapping_.end()) { return; }\n    }\n    std::unique_lock<decltype(mutex_)> lock(mutex_);\n    mapping_.erase(it);")]),
 dict(name='second mutex', props=['C09'], kind='bug', edits=[(F,EX,EX.replace("mutex_","read_mutex_")),(F,"  mutable std::shared_timed_mutex mutex_;","  mutable std::shared_timed_mutex read_mutex_;\n  mutable std::shared_timed_mutex mutex_;")]),
 dict(name='clear via copy', props=['C09'], kind='bug', edits=[(F,"    std::unique_lock<decltype(mutex_)> lock(mutex_);\n    mapping_.clear();","    for (const auto& kv : getMap())\n    {\n      erase(kv.first);\n    }")]),
 dict(name='R lock_guard', props=['C09'], kind='same', edits=[(F,INS,INS.replace("unique_lock","lock_guard"))]),
 dict(name='R insert via find', props=['C09'], kind='same', edits=[(F,"    mapping_[key] = value;","    auto it = mapping_.find(key);\n    if (it == mapping_.end())\n    {\n      mapping_.emplace(key, value);\n    }\n    else\n    {\n      it->second = value;\n    }")]),
 dict(name='R exists count', props=['C09'], kind='same', edits=[(F,"mapping_.find(k) != mapping_.end()","mapping_.count(k) != 0")]),
 dict(name='R getValue find throw', props=['C09'], kind='same', edits=[(F,"return mapping_.at(k);","const auto it = mapping_.find(k);\n    if (it == mapping_.end())\n    {\n      throw std::out_of_range(\"no such key\");\n    }\n    return it->second;")]),
 dict(name='R std::mutex', props=['C09'], kind='same', edits=[(F,"mutable std::shared_timed_mutex","mutable std::mutex")]+[(F,"std::shared_lock<decltype","std::unique_lock<decltype")]*3),
 dict(name='R rename', props=['C09'], kind='same', edits=[(F,"std::unordered_map<Key, Value> mapping_;","std::unordered_map<Key, Value> entries_;")]+[(F,"mapping_","entries_")]*7),
 dict(name='R copy local', props=['C09'], kind='same', edits=[(F,"    return mapping_;","    MapType copy = mapping_;\n    return copy;")]),
 dict(name='R clear swap', props=['C09'], kind='same', edits=[(F,"    mapping_.clear();","    MapType none;\n    mapping_.swap(none);")]),
 dict(name='R helper', props=['C09'], kind='same', edits=[(F,"    return mapping_.find(k) != mapping_.end();","    return contains(k);"),(F,"private:\n","private:\n  bool contains(const Key& k) const\n  {\n    return mapping_.find(k) != mapping_.end();\n  }\n\n")]),
]
