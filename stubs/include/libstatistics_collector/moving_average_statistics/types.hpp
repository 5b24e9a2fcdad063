#pragma once
#include <cmath>
#include <cstdint>
#include <limits>
#include <string>
namespace libstatistics_collector::moving_average_statistics
{
struct StatisticData
{
  double average = std::numeric_limits<double>::quiet_NaN(), min = std::numeric_limits<double>::quiet_NaN(), max = std::numeric_limits<double>::quiet_NaN(), standard_deviation = std::numeric_limits<double>::quiet_NaN();
  uint64_t sample_count = 0;
};
}  // namespace libstatistics_collector::moving_average_statistics
