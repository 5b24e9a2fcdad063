#pragma once
#include <cstdarg>
#include <cstdio>
#include <functional>
#include <sstream>
#include <string>
#include <vector>
#include "diagnostic_msgs/msg/diagnostic_array.hpp"
#include "diagnostic_msgs/msg/diagnostic_status.hpp"
#include "rclcpp/rclcpp.hpp"
namespace diagnostic_updater
{
class DiagnosticStatusWrapper : public diagnostic_msgs::msg::DiagnosticStatus
{
public:
  void summary(unsigned char l, const std::string & s) { level = l; message = s; }
  void summary(const diagnostic_msgs::msg::DiagnosticStatus & s) { level = s.level; message = s.message; }
  void summaryf(unsigned char l, const char * f, ...) { va_list a; va_start(a, f); char b[1000]; vsnprintf(b, sizeof b, f, a); va_end(a); summary(l, b); }
  void mergeSummary(unsigned char l, const std::string & s)
  {
    if ((l > OK) && (level > OK)) { if (!message.empty()) message += "; "; message += s; }
    else if (l > level) message = s;
    if (l > level) level = l;
  }
  void mergeSummary(const diagnostic_msgs::msg::DiagnosticStatus & s) { mergeSummary(s.level, s.message); }
  void clearSummary() { summary(0, ""); }
  template <class T> void add(const std::string & k, const T & v) { std::stringstream ss; ss << v; diagnostic_msgs::msg::KeyValue kv; kv.key = k; kv.value = ss.str(); values.push_back(kv); }
  void clear() { values.clear(); }
};
class Updater
{
public:
  template <class N> explicit Updater(N, double = 1.0) {}
  void setHardwareID(const std::string & h) { hw_ = h; }
  template <class T> void add(const std::string & n, T * o, void (T::*f)(DiagnosticStatusWrapper &)) { add(n, [o, f](DiagnosticStatusWrapper & s) { (o->*f)(s); }); }
  void add(const std::string & n, std::function<void(DiagnosticStatusWrapper &)> f) { tasks_.push_back({n, f}); }
  void force_update() {}
  void setPeriod(double) {}
  void broadcast(unsigned char, const std::string &) {}
  std::vector<DiagnosticStatusWrapper> stub_run() { std::vector<DiagnosticStatusWrapper> r; for (auto & [n, f] : tasks_) { DiagnosticStatusWrapper s; s.name = n; s.level = 2; s.message = "No message was set"; s.hardware_id = hw_; f(s); r.push_back(s); } return r; }
private:
  std::string hw_; std::vector<std::pair<std::string, std::function<void(DiagnosticStatusWrapper &)>>> tasks_;
};
}  // namespace diagnostic_updater
