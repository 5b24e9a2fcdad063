#pragma once
#include "realtime_tools/realtime_helpers.hpp"
