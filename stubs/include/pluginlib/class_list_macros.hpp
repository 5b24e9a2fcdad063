#pragma once
#include "pluginlib/class_loader.hpp"
#define STUB_CAT2(a, b) a##b
#define STUB_CAT(a, b) STUB_CAT2(a, b)
#define PLUGINLIB_EXPORT_CLASS(C, B) \
  namespace { static bool STUB_CAT(stub_plugin_, __COUNTER__) __attribute__((used)) = ::stub::register_plugin<B>(#C, []() -> B * { return new C(); }); }
