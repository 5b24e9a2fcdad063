#pragma once
#include <algorithm>
#include <cstdint>
#include <map>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include "rcl_interfaces/msg/parameter.hpp"
#include "rcl_interfaces/msg/parameter_descriptor.hpp"
#include "rcl_interfaces/msg/parameter_type.hpp"
#include "rcl_interfaces/msg/list_parameters_result.hpp"
#include "rcl_interfaces/msg/set_parameters_result.hpp"

namespace rclcpp
{
enum ParameterType : uint8_t {
  PARAMETER_NOT_SET = 0, PARAMETER_BOOL = 1, PARAMETER_INTEGER = 2, PARAMETER_DOUBLE = 3, PARAMETER_STRING = 4,
  PARAMETER_BYTE_ARRAY = 5, PARAMETER_BOOL_ARRAY = 6, PARAMETER_INTEGER_ARRAY = 7, PARAMETER_DOUBLE_ARRAY = 8,
  PARAMETER_STRING_ARRAY = 9
};
std::string to_string(ParameterType t);
class ParameterTypeException : public std::runtime_error
{
public:
  ParameterTypeException(ParameterType e, ParameterType a)
  : std::runtime_error("expected [" + to_string(e) + "] got [" + to_string(a) + "]") {}
};
namespace exceptions
{
class ParameterUninitializedException : public std::runtime_error
{
public: explicit ParameterUninitializedException(const std::string & n) : std::runtime_error("parameter '" + n + "' is not initialized") {} };
class InvalidParameterTypeException : public std::runtime_error
{
public: InvalidParameterTypeException(const std::string & n, const std::string & m) : std::runtime_error("parameter '" + n + "' has invalid type: " + m) {} };
class InvalidParametersException : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class InvalidParameterValueException : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class ParameterAlreadyDeclaredException : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class ParameterNotDeclaredException : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class ParameterImmutableException : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class RCLError : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class RCLInvalidArgument : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class NameValidationError : public std::invalid_argument { public: using std::invalid_argument::invalid_argument; };
class InvalidNodeNameError : public std::invalid_argument { public: using std::invalid_argument::invalid_argument; };
class InvalidNamespaceError : public std::invalid_argument { public: using std::invalid_argument::invalid_argument; };
class UnknownROSArgsError : public std::runtime_error { public: using std::runtime_error::runtime_error; };
}  // namespace exceptions

class ParameterValue
{
public:
  using V = std::variant<std::monostate, bool, int64_t, double, std::string, std::vector<uint8_t>, std::vector<bool>,
                         std::vector<int64_t>, std::vector<double>, std::vector<std::string>>;
  ParameterValue() = default;
  explicit ParameterValue(bool b) : v_(b) {}
  explicit ParameterValue(int b) : v_(int64_t(b)) {}
  explicit ParameterValue(int64_t b) : v_(b) {}
  explicit ParameterValue(float b) : v_(double(b)) {}
  explicit ParameterValue(double b) : v_(b) {}
  explicit ParameterValue(const std::string & b) : v_(b) {}
  explicit ParameterValue(const char * b) : v_(std::string(b)) {}
  explicit ParameterValue(const std::vector<uint8_t> & b) : v_(b) {}
  explicit ParameterValue(const std::vector<bool> & b) : v_(b) {}
  explicit ParameterValue(const std::vector<int> & b) : v_(std::vector<int64_t>(b.begin(), b.end())) {}
  explicit ParameterValue(const std::vector<int64_t> & b) : v_(b) {}
  explicit ParameterValue(const std::vector<float> & b) : v_(std::vector<double>(b.begin(), b.end())) {}
  explicit ParameterValue(const std::vector<double> & b) : v_(b) {}
  explicit ParameterValue(const std::vector<std::string> & b) : v_(b) {}
  ParameterType get_type() const { return static_cast<ParameterType>(v_.index()); }
  bool operator==(const ParameterValue & o) const { return v_ == o.v_; }
  bool operator!=(const ParameterValue & o) const { return v_ != o.v_; }
  template <class T>
  decltype(auto) get() const
  {
    if constexpr (std::is_same_v<T, bool>) return as<bool>();
    else if constexpr (std::is_integral_v<T>) return static_cast<T>(as<int64_t>());
    else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(as<double>());
    else if constexpr (std::is_convertible_v<T, std::string>) return as<std::string>();
    else if constexpr (std::is_same_v<T, std::vector<int>>) { const auto & x = as<std::vector<int64_t>>(); return std::vector<int>(x.begin(), x.end()); }
    else if constexpr (std::is_same_v<T, std::vector<float>>) { const auto & x = as<std::vector<double>>(); return std::vector<float>(x.begin(), x.end()); }
    else return (as<T>());
  }
  template <class T>
  const T & as() const
  {
    if (!std::holds_alternative<T>(v_)) throw ParameterTypeException(static_cast<ParameterType>(V(T{}).index()), get_type());
    return std::get<T>(v_);
  }

private:
  V v_;
};
std::string to_string(const ParameterValue & v);

class Parameter
{
public:
  Parameter() = default;
  explicit Parameter(const std::string & n) : name_(n) {}
  Parameter(const std::string & n, const ParameterValue & v) : name_(n), v_(v) {}
  template <class T>
  Parameter(const std::string & n, T v) : name_(n), v_(ParameterValue(v)) {}
  bool operator==(const Parameter & o) const { return name_ == o.name_ && v_ == o.v_; }
  bool operator!=(const Parameter & o) const { return !(*this == o); }
  ParameterType get_type() const { return v_.get_type(); }
  std::string get_type_name() const { return to_string(get_type()); }
  const std::string & get_name() const { return name_; }
  const ParameterValue & get_parameter_value() const { return v_; }
  template <class T>
  decltype(auto) get_value() const
  {
    try { return v_.template get<T>(); }
    catch (const ParameterTypeException & e) { throw exceptions::InvalidParameterTypeException(name_, e.what()); }
  }
#define STUB_AS(F, T) T F() const { return get_value<T>(); }
  STUB_AS(as_bool, bool) STUB_AS(as_int, int64_t) STUB_AS(as_double, double) STUB_AS(as_string, std::string)
  STUB_AS(as_byte_array, std::vector<uint8_t>) STUB_AS(as_bool_array, std::vector<bool>)
  STUB_AS(as_integer_array, std::vector<int64_t>) STUB_AS(as_double_array, std::vector<double>)
  STUB_AS(as_string_array, std::vector<std::string>)
#undef STUB_AS
  std::string value_to_string() const { return to_string(v_); }

private:
  std::string name_;
  ParameterValue v_;
};
using ParameterMap = std::map<std::string, std::vector<Parameter>>;
}  // namespace rclcpp
