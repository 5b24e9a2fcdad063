#pragma once
#include "rclcpp/version.h"
