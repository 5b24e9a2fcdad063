#include "transmission_interface/four_bar_linkage_transmission.hpp"
#include "ti_make.hpp"
namespace tim
{
using X = transmission_interface::FourBarLinkageTransmission;
T make_four(const V & ar, const V & jr, const V & o) { return std::make_unique<X>(ar, jr, o); }
bool data_four(transmission_interface::Transmission & t, V & ar, V & jr, V & o)
{
  auto x = dynamic_cast<X *>(&t);
  if (!x) return false;
  jr = x->get_joint_reduction();
  ar = x->get_actuator_reduction();
  o = x->get_joint_offset();
  return true;
}
}
