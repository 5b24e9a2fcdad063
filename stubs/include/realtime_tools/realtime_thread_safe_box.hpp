#pragma once
#include <functional>
#include <mutex>
#include <optional>
#include <type_traits>
#include <utility>
namespace realtime_tools
{
template <class T, class M = std::mutex>
class RealtimeThreadSafeBox
{
public:
  using mutex_type = M; using type = T;
  explicit RealtimeThreadSafeBox(const T & v = T{}) : v_(v) {}
  RealtimeThreadSafeBox(const RealtimeThreadSafeBox & o) : v_(o.get()) {}
  void operator=(const T & v) { set(v); }
  template <class U = T> std::enable_if_t<!std::is_invocable_v<U, T &>, bool> try_set(const U & v) { std::unique_lock<M> l(m_, std::defer_lock); if (!l.try_lock()) return false; v_ = v; return true; }
  template <class F, class = void, std::enable_if_t<std::is_invocable_v<F, T &>, int> = 0> bool try_set(const F & f) { std::unique_lock<M> l(m_, std::defer_lock); if (!l.try_lock()) return false; f(v_); return true; }
  std::optional<T> try_get() const { std::unique_lock<M> l(m_, std::defer_lock); if (!l.try_lock()) return std::nullopt; return v_; }
  bool try_get(const std::function<void(const T &)> & f) { std::unique_lock<M> l(m_, std::defer_lock); if (!l.try_lock()) return false; f(v_); return true; }
  template <class U = T> std::enable_if_t<!std::is_invocable_v<U, T &>> set(const U & v) { std::lock_guard<M> l(m_); v_ = v; }
  template <class F, class = void, std::enable_if_t<std::is_invocable_v<F, T &>, int> = 0> void set(const F & f) { std::lock_guard<M> l(m_); f(v_); }
  T get() const { std::lock_guard<M> l(m_); return v_; }
  void get(T & o) const { std::lock_guard<M> l(m_); o = v_; }
  template <class F> std::enable_if_t<std::is_invocable_v<F, const T &>> get(const F & f) const { std::lock_guard<M> l(m_); f(v_); }
  operator T() const { return get(); }
private:
  T v_; mutable M m_;
};
}  // namespace realtime_tools
