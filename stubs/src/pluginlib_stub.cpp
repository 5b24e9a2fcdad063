#include "pluginlib/class_loader.hpp"
#include <tinyxml2.h>
namespace stub
{
std::map<std::pair<std::type_index, std::string>, PluginEntry> & plugins() { static auto * m = new std::map<std::pair<std::type_index, std::string>, PluginEntry>; return *m; }
std::map<std::string, std::string> & plugin_alias() { static auto * m = new std::map<std::string, std::string>; return *m; }
void load_plugin_xml(const std::string & path)
{
  tinyxml2::XMLDocument d; if (d.LoadFile(path.c_str())) return;
  auto one = [](tinyxml2::XMLElement * lib) { for (auto c = lib->FirstChildElement("class"); c; c = c->NextSiblingElement("class")) { auto n = c->Attribute("name"), t = c->Attribute("type"); if (t) plugin_alias()[n ? n : t] = t; } };
  auto r = d.RootElement(); if (!r) return;
  if (std::string(r->Value()) == "library") one(r);
  for (auto l = r->FirstChildElement("library"); l; l = l->NextSiblingElement("library")) one(l);
}
}  // namespace stub
