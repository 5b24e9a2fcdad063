#include "transmission_interface/simple_transmission.hpp"
#include "ti_make.hpp"
namespace tim
{
using X = transmission_interface::SimpleTransmission;
T make_simple(double r, double o) { return std::make_unique<X>(r, o); }
bool data_simple(transmission_interface::Transmission & t, V &, V & jr, V & o)
{
  auto x = dynamic_cast<X *>(&t);
  if (!x) return false;
  jr = {x->get_actuator_reduction()};
  o = {x->get_joint_offset()};
  return true;
}
}
