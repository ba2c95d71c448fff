#pragma once
#include <memory>
#include <string>
#include "builtin_interfaces/msg/time.hpp"
namespace std_msgs { namespace msg {
struct Header
{
  typedef std::shared_ptr<Header> SharedPtr;
  builtin_interfaces::msg::Time stamp;
  std::string frame_id;
};
}}
