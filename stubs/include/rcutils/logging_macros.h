#pragma once
#include "rclcpp/stub_logging.hpp"
