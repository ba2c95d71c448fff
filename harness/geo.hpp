// WGS-84 reference geodesy in long double, independent of the repository's.
#ifndef GEO_HPP_
#define GEO_HPP_

#include "util.hpp"

namespace geo
{
typedef ref::real real;
static const real PI = 3.14159265358979323846264338327950288L;
static const real A = 6378137.0L;
static const real F = 1.0L / 298.257223563L;

// Point of the ellipsoid through the parametric latitude, plus altitude along the normal
inline ref::V3 Ecef(const Eigen::Vector3d & lla)
{
  real phi = lla(0) * PI / 180, lam = lla(1) * PI / 180, h = lla(2);
  real b = A * (1 - F);
  real beta = std::atan2((1 - F) * std::sin(phi), std::cos(phi));
  ref::V3 p(A * std::cos(beta) * std::cos(lam), A * std::cos(beta) * std::sin(lam), b * std::sin(beta));
  ref::V3 n(std::cos(phi) * std::cos(lam), std::cos(phi) * std::sin(lam), std::sin(phi));
  return p + h * n;
}
// East, north, up axes as rows
inline ref::M3 Axes(const Eigen::Vector3d & lla)
{
  real phi = lla(0) * PI / 180, lam = lla(1) * PI / 180;
  ref::V3 up(std::cos(phi) * std::cos(lam), std::cos(phi) * std::sin(lam), std::sin(phi));
  ref::V3 east(-std::sin(lam), std::cos(lam), 0);
  ref::V3 north = up.cross(east);
  ref::M3 m;
  m.row(0) = east.transpose(); m.row(1) = north.transpose(); m.row(2) = up.transpose();
  return m;
}
// Local coordinates (heading-rotated east-north-up at the reference) of a geodetic point
inline Eigen::Vector3d Local(const Eigen::Vector3d & lla, const Eigen::Vector3d & origin, double heading)
{
  ref::V3 e = Axes(origin) * (Ecef(lla) - Ecef(origin));
  real s = std::sin(static_cast<real>(heading)), c = std::cos(static_cast<real>(heading));
  return ref::V3(c * e(0) - s * e(1), s * e(0) + c * e(1), e(2)).cast<double>();
}
}  // namespace geo

#endif  // GEO_HPP_
