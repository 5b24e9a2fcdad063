#pragma once
#define RCLCPP_VERSION_MAJOR (30)
#define RCLCPP_VERSION_MINOR (1)
#define RCLCPP_VERSION_PATCH (0)
#define RCLCPP_VERSION_STR "30.1.0"
#define RCLCPP_VERSION_GTE(major, minor, patch) ((major < RCLCPP_VERSION_MAJOR) ? true : ((major > RCLCPP_VERSION_MAJOR) ? false : ((minor < RCLCPP_VERSION_MINOR) ? true : ((minor > RCLCPP_VERSION_MINOR) ? false : ((patch <= RCLCPP_VERSION_PATCH) ? true : false)))))
