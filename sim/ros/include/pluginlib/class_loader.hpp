// Plugins are looked up in a registry the harness fills: simros::plugins<Base>()["name"] = factory.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
namespace simros
{
template <typename Base> std::map<std::string, std::function<std::shared_ptr<Base>()>> & plugins()
{
  static auto * m = new std::map<std::string, std::function<std::shared_ptr<Base>()>>;
  return *m;
}
}  // namespace simros
namespace pluginlib
{
struct PluginlibException : std::runtime_error { using std::runtime_error::runtime_error; };
template <typename Base> struct ClassLoader
{
  ClassLoader(const std::string &, const std::string &) {}
  std::shared_ptr<Base> createSharedInstance(const std::string & name)
  {
    auto & m = simros::plugins<Base>();
    auto it = m.find(name);
    if (it == m.end()) throw PluginlibException("no plugin " + name);
    return it->second();
  }
};
}  // namespace pluginlib
#define PLUGINLIB_EXPORT_CLASS(T, B) \
  [[maybe_unused]] static const bool simros_plugin_##__LINE__ = (simros::plugins<B>()[#T] = [] { return std::static_pointer_cast<B>(std::make_shared<T>()); }, true);
