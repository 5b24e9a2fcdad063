#pragma once
#include <mutex>
namespace realtime_tools
{
// upstream: pthread mutexes with priority inheritance; locking semantics as std
class prio_inherit_mutex : public std::mutex {};
class prio_inherit_recursive_mutex : public std::recursive_mutex {};
}  // namespace realtime_tools
