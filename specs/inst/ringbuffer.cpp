// instantiations of the repository's ring buffer template that are verified: the one the repository uses, and a plain one
#include <stdexcept>
#include <iterator>
#include "native/tracepoint_collector_native.h"
template class scalopus::SPSCRingBuffer<std::vector<unsigned long>>;
template class scalopus::SPSCRingBuffer<std::vector<scalopus::tracepoint_collector_types::StaticTraceEvent>>;
template std::size_t scalopus::SPSCRingBuffer<std::vector<unsigned long>>::pop_into(std::back_insert_iterator<std::vector<unsigned long>>, const std::size_t);
template std::size_t scalopus::SPSCRingBuffer<std::vector<scalopus::tracepoint_collector_types::StaticTraceEvent>>::pop_into(
    std::back_insert_iterator<std::vector<scalopus::tracepoint_collector_types::StaticTraceEvent>>, const std::size_t);
