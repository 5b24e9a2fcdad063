#pragma once
// Stand-in for pal_statistics: registration is type checked, nothing is sampled.
#include <cxxabi.h>
#include <functional>
#include <memory>
#include <string>
namespace pal_statistics
{
using IdType = unsigned int;
class RegistrationsRAII { public: void add(...) {} bool disableAll() { return true; } bool enableAll() { return true; } void removeAll() {} };
class StatisticsRegistry
{
public:
  template <class T> IdType registerVariable(const std::string &, const T *, RegistrationsRAII * = nullptr, bool = true) { return 0; }
  IdType registerFunction(const std::string &, const std::function<double()> &, RegistrationsRAII * = nullptr, bool = true) { return 0; }
};
template <class T> IdType customRegister(StatisticsRegistry & r, const std::string & n, const T * v, RegistrationsRAII * b = nullptr, bool e = true) { return r.registerVariable(n, v, b, e); }
inline IdType customRegister(StatisticsRegistry & r, const std::string & n, const std::function<double()> & f, RegistrationsRAII * b = nullptr, bool e = true) { return r.registerFunction(n, f, b, e); }
inline std::shared_ptr<StatisticsRegistry> getRegistry(const std::string & = "") { static auto r = std::make_shared<StatisticsRegistry>(); return r; }
template <class T> void stub_register(const std::string &, const std::string & id, T * v, RegistrationsRAII * b = nullptr, bool e = true) { static StatisticsRegistry r; customRegister(r, id, static_cast<const T *>(v), b, e); }
inline void stub_register(const std::string &, const std::string & id, const std::function<double()> & f, RegistrationsRAII * b = nullptr, bool e = true) { static StatisticsRegistry r; customRegister(r, id, f, b, e); }
template <class N> void stub_init(N &&, const std::string &, const std::string &) {}
inline void stub_unreg(const std::string &, const std::string &) {}
inline void stub_noop(const std::string &) {}
}  // namespace pal_statistics
