#pragma once
#include <cstdarg>
#include <cstdio>
#include <memory>
#include <sstream>
#include <string>

namespace rclcpp
{
class Logger
{
public:
  enum class Level { Unset = 0, Debug = 10, Info = 20, Warn = 30, Error = 40, Fatal = 50 };
  explicit Logger(const std::string & n = "") : name_(std::make_shared<std::string>(n)) {}
  const char * get_name() const { return name_->c_str(); }
  Logger get_child(const std::string & s) { return Logger(*name_ + "." + s); }
  void set_level(Level) {}
  Level get_effective_level() const { return Level::Info; }

private:
  std::shared_ptr<const std::string> name_;
};
inline Logger get_logger(const std::string & n) { return Logger(n); }
}  // namespace rclcpp
namespace stub
{
extern int log_level;   // messages at or above are printed (default: nothing below 60)
extern int eval_level;  // arguments of messages at or above are evaluated (default 20 = INFO, as upstream)
void log_emit(int level, const char * name, const char * fmt, ...) __attribute__((format(printf, 3, 4)));
inline void log_eval(const rclcpp::Logger &) {}
}  // namespace stub
#define RCUTILS_LOG_SEVERITY int
#define STUB_LOG(LVL, logger, ...)                                                           \
  do {                                                                                       \
    if ((LVL) >= ::stub::eval_level) {                                                       \
      ::rclcpp::Logger stub_lg_ = ::rclcpp::Logger(logger);                                  \
      ::stub::log_emit((LVL), stub_lg_.get_name(), __VA_ARGS__);                             \
    }                                                                                        \
  } while (0)
#define STUB_LOG_STREAM(LVL, logger, expr)                                                   \
  do {                                                                                       \
    if ((LVL) >= ::stub::eval_level) {                                                       \
      std::stringstream stub_ss_; stub_ss_ << expr;                                          \
      ::rclcpp::Logger stub_lg_ = ::rclcpp::Logger(logger);                                  \
      ::stub::log_emit((LVL), stub_lg_.get_name(), "%s", stub_ss_.str().c_str());            \
    }                                                                                        \
  } while (0)
#define RCLCPP_DEBUG(l, ...) STUB_LOG(10, l, __VA_ARGS__)
#define RCLCPP_INFO(l, ...) STUB_LOG(20, l, __VA_ARGS__)
#define RCLCPP_WARN(l, ...) STUB_LOG(30, l, __VA_ARGS__)
#define RCLCPP_ERROR(l, ...) STUB_LOG(40, l, __VA_ARGS__)
#define RCLCPP_FATAL(l, ...) STUB_LOG(50, l, __VA_ARGS__)
#define RCLCPP_DEBUG_ONCE(l, ...) STUB_LOG(10, l, __VA_ARGS__)
#define RCLCPP_INFO_ONCE(l, ...) STUB_LOG(20, l, __VA_ARGS__)
#define RCLCPP_WARN_ONCE(l, ...) STUB_LOG(30, l, __VA_ARGS__)
#define RCLCPP_ERROR_ONCE(l, ...) STUB_LOG(40, l, __VA_ARGS__)
#define RCLCPP_FATAL_ONCE(l, ...) STUB_LOG(50, l, __VA_ARGS__)
#define RCLCPP_DEBUG_STREAM(l, e) STUB_LOG_STREAM(10, l, e)
#define RCLCPP_INFO_STREAM(l, e) STUB_LOG_STREAM(20, l, e)
#define RCLCPP_WARN_STREAM(l, e) STUB_LOG_STREAM(30, l, e)
#define RCLCPP_ERROR_STREAM(l, e) STUB_LOG_STREAM(40, l, e)
#define RCLCPP_FATAL_STREAM(l, e) STUB_LOG_STREAM(50, l, e)
#define STUB_THR(clk, dur) do { (void)sizeof(clk); (void)sizeof(dur); } while (0)
#define RCLCPP_DEBUG_THROTTLE(l, c, d, ...) do { STUB_THR(c, d); STUB_LOG(10, l, __VA_ARGS__); } while (0)
#define RCLCPP_INFO_THROTTLE(l, c, d, ...) do { STUB_THR(c, d); STUB_LOG(20, l, __VA_ARGS__); } while (0)
#define RCLCPP_WARN_THROTTLE(l, c, d, ...) do { STUB_THR(c, d); STUB_LOG(30, l, __VA_ARGS__); } while (0)
#define RCLCPP_ERROR_THROTTLE(l, c, d, ...) do { STUB_THR(c, d); STUB_LOG(40, l, __VA_ARGS__); } while (0)
#define RCLCPP_FATAL_THROTTLE(l, c, d, ...) do { STUB_THR(c, d); STUB_LOG(50, l, __VA_ARGS__); } while (0)
#define RCLCPP_DEBUG_STREAM_THROTTLE(l, c, d, e) do { STUB_THR(c, d); STUB_LOG_STREAM(10, l, e); } while (0)
#define RCLCPP_INFO_STREAM_THROTTLE(l, c, d, e) do { STUB_THR(c, d); STUB_LOG_STREAM(20, l, e); } while (0)
#define RCLCPP_WARN_STREAM_THROTTLE(l, c, d, e) do { STUB_THR(c, d); STUB_LOG_STREAM(30, l, e); } while (0)
#define RCLCPP_ERROR_STREAM_THROTTLE(l, c, d, e) do { STUB_THR(c, d); STUB_LOG_STREAM(40, l, e); } while (0)
#define RCLCPP_DEBUG_EXPRESSION(l, x, ...) do { if (x) STUB_LOG(10, l, __VA_ARGS__); } while (0)
#define RCLCPP_INFO_EXPRESSION(l, x, ...) do { if (x) STUB_LOG(20, l, __VA_ARGS__); } while (0)
#define RCLCPP_WARN_EXPRESSION(l, x, ...) do { if (x) STUB_LOG(30, l, __VA_ARGS__); } while (0)
#define RCLCPP_ERROR_EXPRESSION(l, x, ...) do { if (x) STUB_LOG(40, l, __VA_ARGS__); } while (0)
#define RCLCPP_FATAL_EXPRESSION(l, x, ...) do { if (x) STUB_LOG(50, l, __VA_ARGS__); } while (0)
#define RCLCPP_DEBUG_SKIPFIRST(l, ...) STUB_LOG(10, l, __VA_ARGS__)
#define RCLCPP_WARN_SKIPFIRST(l, ...) STUB_LOG(30, l, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG_NAMED(n, ...) STUB_LOG(10, ::rclcpp::get_logger(n), __VA_ARGS__)
#define RCUTILS_LOG_INFO_NAMED(n, ...) STUB_LOG(20, ::rclcpp::get_logger(n), __VA_ARGS__)
#define RCUTILS_LOG_WARN_NAMED(n, ...) STUB_LOG(30, ::rclcpp::get_logger(n), __VA_ARGS__)
#define RCUTILS_LOG_ERROR_NAMED(n, ...) STUB_LOG(40, ::rclcpp::get_logger(n), __VA_ARGS__)
#define RCUTILS_LOG_FATAL_NAMED(n, ...) STUB_LOG(50, ::rclcpp::get_logger(n), __VA_ARGS__)
#define RCUTILS_LOG_INFO(...) STUB_LOG(20, ::rclcpp::get_logger(""), __VA_ARGS__)
#define RCUTILS_LOG_ERROR(...) STUB_LOG(40, ::rclcpp::get_logger(""), __VA_ARGS__)
#define RCUTILS_LOG_WARN(...) STUB_LOG(30, ::rclcpp::get_logger(""), __VA_ARGS__)
