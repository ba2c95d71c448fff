#pragma once
namespace geometry_msgs { namespace msg {
struct Vector3 {double x{0}, y{0}, z{0};};
struct Quaternion {double x{0}, y{0}, z{0}, w{1};};
}}
