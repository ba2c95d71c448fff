#pragma once
#include <array>
#include <cstdint>
#include <memory>
#include "std_msgs/msg/header.hpp"
namespace sensor_msgs { namespace msg {
struct NavSatStatus
{
  static constexpr int8_t STATUS_NO_FIX = -1, STATUS_FIX = 0, STATUS_SBAS_FIX = 1, STATUS_GBAS_FIX = 2;
  int8_t status{0};
  uint16_t service{0};
};
struct NavSatFix
{
  typedef std::shared_ptr<NavSatFix> SharedPtr;
  typedef std::shared_ptr<const NavSatFix> ConstSharedPtr;
  static constexpr uint8_t COVARIANCE_TYPE_UNKNOWN = 0, COVARIANCE_TYPE_APPROXIMATED = 1,
    COVARIANCE_TYPE_DIAGONAL_KNOWN = 2, COVARIANCE_TYPE_KNOWN = 3;
  std_msgs::msg::Header header;
  NavSatStatus status;
  double latitude{0}, longitude{0}, altitude{0};
  std::array<double, 9> position_covariance{};
  uint8_t position_covariance_type{0};
};
}}
