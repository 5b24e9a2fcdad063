#pragma once
#include "libstatistics_collector/moving_average_statistics/types.hpp"
