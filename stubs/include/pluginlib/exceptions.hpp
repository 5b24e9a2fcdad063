#pragma once
#include "pluginlib/class_loader.hpp"
