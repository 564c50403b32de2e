// the instantiations of the repository's MapTracker that it uses
#include <memory>
#include <stdexcept>
#include <utility>
#include <algorithm>
#include <vector>
#include <string>
#include <scalopus_general/map_tracker.h>
template class scalopus::MapTracker<unsigned int, std::string>;
template class scalopus::MapTracker<unsigned long, std::string>;
template class scalopus::MapTracker<unsigned long, std::shared_ptr<int>>;
