#pragma once
// Stand-in for pluginlib: statically registered classes.
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <typeindex>
#include <vector>
namespace pluginlib
{
class PluginlibException : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class LibraryLoadException : public PluginlibException { public: using PluginlibException::PluginlibException; };
class CreateClassException : public PluginlibException { public: using PluginlibException::PluginlibException; };
class ClassLoaderException : public PluginlibException { public: using PluginlibException::PluginlibException; };
class InvalidXMLException : public PluginlibException { public: using PluginlibException::PluginlibException; };
class LibraryUnloadException : public PluginlibException { public: using PluginlibException::PluginlibException; };
}  // namespace pluginlib
namespace stub
{
struct PluginEntry { std::type_index base; std::string type; std::function<void *()> make; };
std::map<std::pair<std::type_index, std::string>, PluginEntry> & plugins();  // keyed by (base, lookup name)
std::map<std::string, std::string> & plugin_alias();                         // lookup name -> type
void load_plugin_xml(const std::string & path);
template <class Base> bool register_plugin(const std::string & name, std::function<Base *()> f)
{
  plugins().insert_or_assign(std::make_pair(std::type_index(typeid(Base)), name), PluginEntry{typeid(Base), name, [f]() -> void * { return f(); }});
  return true;
}
}  // namespace stub
namespace pluginlib
{
template <class T> using UniquePtr = std::unique_ptr<T, std::function<void(T *)>>;
template <class T>
class ClassLoader
{
public:
  template <class U> using UniquePtr = pluginlib::UniquePtr<U>;
  ClassLoader(const std::string & pkg, const std::string & base, const std::string & = "plugin", const std::vector<std::string> & = {}) : pkg_(pkg), base_(base) {}
  std::vector<std::string> getDeclaredClasses()
  {
    std::vector<std::string> r;
    std::map<std::string, bool> typed;
    for (auto & [a, t] : stub::plugin_alias()) if (a != t && stub::plugins().count({typeid(T), t})) { r.push_back(a); typed[t] = true; }
    for (auto & [k, e] : stub::plugins()) if (k.first == std::type_index(typeid(T)) && !typed.count(k.second)) { auto s = k.second; auto p = s.find("::"); if (p != std::string::npos) s.replace(p, 2, "/"); r.push_back(s); }
    return r;
  }
  std::string getBaseClassType() const { return base_; }
  std::string getName(const std::string & n) { auto p = n.rfind('/'); return p == std::string::npos ? n : n.substr(p + 1); }
  std::string getClassType(const std::string & n) { return find(n)->type; }
  bool isClassAvailable(const std::string & n) { return find(n) != nullptr; }
  bool isClassLoaded(const std::string & n) { return find(n) != nullptr; }
  std::vector<std::string> getRegisteredLibraries() { return {}; }
  void refreshDeclaredClasses() {}
  void loadLibraryForClass(const std::string &) {}
  int unloadLibraryForClass(const std::string &) { return 0; }
  T * createUnmanagedInstance(const std::string & n)
  {
    auto e = find(n);
    if (!e) throw LibraryLoadException("According to the loaded plugin descriptions the class " + n + " with base class type " + base_ + " does not exist.");
    return static_cast<T *>(e->make());
  }
  std::shared_ptr<T> createSharedInstance(const std::string & n) { return std::shared_ptr<T>(createUnmanagedInstance(n)); }
  UniquePtr<T> createUniqueInstance(const std::string & n) { return UniquePtr<T>(createUnmanagedInstance(n), [](T * p) { delete p; }); }
private:
  const stub::PluginEntry * find(const std::string & n)
  {
    auto & ps = stub::plugins();
    auto look = [&](const std::string & k) -> const stub::PluginEntry * { auto it = ps.find({typeid(T), k}); return it == ps.end() ? nullptr : &it->second; };
    if (auto p = look(n)) return p;
    auto al = stub::plugin_alias().find(n);
    if (al != stub::plugin_alias().end()) if (auto p = look(al->second)) return p;
    std::string m = n; for (size_t p; (p = m.find('/')) != std::string::npos;) m.replace(p, 1, "::");
    return look(m);
  }
  std::string pkg_, base_;
};
}  // namespace pluginlib
