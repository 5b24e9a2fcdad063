#pragma once
#include <string>
#include <thread>
#include <utility>
#include <vector>
namespace realtime_tools
{
inline bool has_realtime_kernel() { return false; }
inline bool configure_sched_fifo(int) { return false; }
inline std::pair<bool, std::string> lock_memory() { return {true, ""}; }
inline std::pair<bool, std::string> set_thread_affinity(pthread_t, const std::vector<int> &) { return {true, ""}; }
inline std::pair<bool, std::string> set_current_thread_affinity(int) { return {true, ""}; }
inline std::pair<bool, std::string> set_current_thread_affinity(const std::vector<int> &) { return {true, ""}; }
inline int64_t get_number_of_available_processors() { return 8; }
}  // namespace realtime_tools
