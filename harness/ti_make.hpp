#pragma once
#include <memory>
#include <vector>
#include "transmission_interface/transmission.hpp"
// The headers of the transmissions cannot be included together.
namespace tim
{
using V = std::vector<double>;
using T = std::unique_ptr<transmission_interface::Transmission>;
T make_simple(double r, double o);
T make_diff(const V & ar, const V & jr, const V & o);
T make_four(const V & ar, const V & jr, const V & o);
bool data_simple(transmission_interface::Transmission & t, V & ar, V & jr, V & o);
bool data_diff(transmission_interface::Transmission & t, V & ar, V & jr, V & o);
bool data_four(transmission_interface::Transmission & t, V & ar, V & jr, V & o);
}
