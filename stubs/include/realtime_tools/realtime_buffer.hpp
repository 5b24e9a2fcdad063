#pragma once
#include <mutex>
namespace realtime_tools
{
template <class T>
class RealtimeBuffer
{
public:
  RealtimeBuffer() : nrt_(new T()), rt_(new T()) {}
  explicit RealtimeBuffer(const T & d) : nrt_(new T(d)), rt_(new T(d)) {}
  ~RealtimeBuffer() { delete nrt_; delete rt_; }
  RealtimeBuffer(const RealtimeBuffer &) = delete;
  RealtimeBuffer & operator=(const RealtimeBuffer &) = delete;
  T * readFromRT()
  {
    std::unique_lock<std::mutex> g(m_, std::try_to_lock);
    if (g.owns_lock() && new_) { std::swap(nrt_, rt_); new_ = false; }
    return rt_;
  }
  T * readFromNonRT() const { std::lock_guard<std::mutex> g(m_); return new_ ? nrt_ : rt_; }
  void writeFromNonRT(const T & d) { std::lock_guard<std::mutex> g(m_); *nrt_ = d; new_ = true; }
  void initRT(const T & d) { *nrt_ = d; *rt_ = d; }
  void reset() { delete nrt_; delete rt_; nrt_ = new T(); rt_ = new T(); }
private:
  T * nrt_; T * rt_; bool new_ = false; mutable std::mutex m_;
};
}  // namespace realtime_tools
