#pragma once
#include <memory>
#include <vector>
namespace std_msgs { namespace msg {
struct Float64MultiArray
{
  typedef std::shared_ptr<Float64MultiArray> SharedPtr;
  std::vector<double> data;
};
}}
