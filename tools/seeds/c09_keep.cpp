#include <cstdio>
#include "scalopus_general/map_tracker.h"
int main()
{
  scalopus::MapTracker<unsigned int, std::string> t;
  t.insert(1, "a"); t.insert(2, "b"); t.insert(1, "c");
  if (t.getValue(1) != "c" || t.getMap().at(1) != "c") { printf("getValue(1) = %s\n", t.getValue(1).c_str()); return 1; }
  return t.getMap().size() == 2 ? 0 : 1;
}
