#pragma once
#include <memory>
#include <mutex>
#include "rclcpp/rclcpp.hpp"
namespace realtime_tools
{
// upstream hands the message to a background publishing thread; here it is published synchronously
template <class M>
class RealtimePublisher
{
public:
  using PublisherType = rclcpp::Publisher<M>; using PublisherSharedPtr = typename rclcpp::Publisher<M>::SharedPtr; using MessageType = M;
  RCLCPP_SMART_PTR_DEFINITIONS(RealtimePublisher)
  explicit RealtimePublisher(PublisherSharedPtr p) : p_(p) {}
  bool can_publish() const { return true; }
  bool try_publish(const M & m) { std::unique_lock<std::mutex> l(m_, std::try_to_lock); if (!l.owns_lock()) return false; p_->publish(m); return true; }
  bool tryPublish(const M & m) { return try_publish(m); }
  bool trylock() { return m_.try_lock(); }
  void lock() { m_.lock(); } void unlock() { m_.unlock(); }
  void unlockAndPublish() { p_->publish(msg_); m_.unlock(); }
  void stop() {}
  M msg_;
private: PublisherSharedPtr p_; std::mutex m_;
};
}  // namespace realtime_tools
