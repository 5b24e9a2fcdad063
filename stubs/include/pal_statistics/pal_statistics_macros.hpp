#pragma once
#include "pal_statistics/pal_statistics_utils.hpp"
#define REGISTER_ENTITY(KEY, ID, ...) ::pal_statistics::stub_register(KEY, ID, __VA_ARGS__)
#define UNREGISTER_ENTITY(KEY, ID) ::pal_statistics::stub_unreg(KEY, ID)
#define REGISTER_VARIABLE(KEY, ID, ...) ::pal_statistics::stub_register(KEY, ID, __VA_ARGS__)
#define INITIALIZE_REGISTRY(NODE, TOPIC, KEY) ::pal_statistics::stub_init(NODE, TOPIC, KEY)
#define START_PUBLISH_THREAD(KEY) ::pal_statistics::stub_noop(KEY)
#define PUBLISH_ASYNC_STATISTICS(KEY) ::pal_statistics::stub_noop(KEY)
#define PUBLISH_STATISTICS(KEY) ::pal_statistics::stub_noop(KEY)
#define CLEAR_ALL_REGISTRIES() do { } while (0)
