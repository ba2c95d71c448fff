#pragma once
#include <array>
#include <memory>
#include "geometry_msgs/msg/vector3.hpp"
#include "std_msgs/msg/header.hpp"
namespace sensor_msgs { namespace msg {
struct Imu
{
  typedef std::shared_ptr<Imu> SharedPtr;
  typedef std::shared_ptr<const Imu> ConstSharedPtr;
  std_msgs::msg::Header header;
  geometry_msgs::msg::Quaternion orientation;
  std::array<double, 9> orientation_covariance{};
  geometry_msgs::msg::Vector3 angular_velocity;
  std::array<double, 9> angular_velocity_covariance{};
  geometry_msgs::msg::Vector3 linear_acceleration;
  std::array<double, 9> linear_acceleration_covariance{};
};
}}
