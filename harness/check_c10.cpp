// C10: geodetic conversions
#include "utility/gps_helper.hpp"
#include "geo.hpp"
#include "util.hpp"

using namespace util;
using pbt::Case;
using pbt::Gen;
using namespace geo;

static Eigen::Vector3d Lla(Gen & g, Case & c)
{
  Eigen::Vector3d l;
  switch (g.Int(0, 9)) {
    case 0: l(0) = 0.0; break;
    case 1: l(0) = g.Coin() ? 90.0 : -90.0; c.Label("pole"); break;
    case 2: l(0) = (g.Coin() ? 1 : -1) * (90.0 - g.Log(1e-9, 1e-1)); c.Label("near_pole"); break;
    case 3: l(0) = g.Sym(1.0) * g.Log(1e-9, 1e-1); c.Label("near_equator"); break;
    default: l(0) = g.Sym(90.0);
  }
  switch (g.Int(0, 9)) {
    case 0: l(1) = 0.0; break;
    case 1: l(1) = g.Coin() ? 180.0 : -180.0; c.Label("antimeridian"); break;
    case 2: l(1) = (g.Coin() ? 1 : -1) * (180.0 - g.Log(1e-9, 1e-1)); break;
    case 3: l(1) = g.Pick(std::vector<double>{90.0, -90.0, 45.0, -45.0, 135.0, -135.0}); break;
    default: l(1) = g.Sym(180.0);
  }
  switch (g.Int(0, 4)) {
    case 0: l(2) = 0.0; break;
    case 1: l(2) = g.Sym(1.0) * g.Log(1e-3, 10.0); break;
    case 2: l(2) = g.Real(-9000.0, 9000.0); break;
    default: l(2) = g.Real(-500.0, 20000.0);
  }
  return l;
}

static Eigen::Vector3d Enu(Gen & g) {return gen::VecAny(g, 1e-2, 2e4);}

static void LlaEcef(Gen & g, Case & c)
{
  Eigen::Vector3d l = Lla(g, c);
  c.note << "lla " << S(l);
  c.NonTrivial();
  Eigen::Vector3d e = lla_to_ecef(l);
  CheckNear(c, e, Ecef(l).cast<double>(), 1e-6, "Earth-centred position");
  Eigen::Vector3d b = ecef_to_lla(e);
  // compare as positions: longitude at a pole is arbitrary
  c.Check(std::abs(b(0)) <= 90.0 + 1e-12 && std::abs(b(1)) <= 180.0 + 1e-12, "geodetic position out of range " + S(b));
  CheckNear(c, Ecef(b).cast<double>(), Ecef(l).cast<double>(), 1e-5, "geodetic position there and back");
  c.Check(Near(b(2), l(2), 1e-5), "altitude there and back: " + S(b(2)));
  c.Check(Near(b(0), l(0), 1e-9), "latitude there and back: " + S(b(0)));
  if (std::abs(l(0)) < 89.9) {
    double d = std::fmod(std::abs(b(1) - l(1)), 360.0);
    c.Check(std::min(d, 360.0 - d) < 1e-8, "longitude there and back: " + S(b(1)));
  }
}

static void EnuFrames(Gen & g, Case & c)
{
  Eigen::Vector3d r = Lla(g, c), x = Enu(g);
  c.note << "ref " << S(r) << " enu " << S(x);
  if (x.norm() > 0) {c.NonTrivial();}
  ref::V3 want = Ecef(r) + Axes(r).transpose() * x.cast<real>();
  Eigen::Vector3d e = enu_to_ecef(x, r);
  CheckNear(c, e, want.cast<double>(), 1e-6, "Earth-centred position of a local east-north-up point");
  CheckNear(c, ecef_to_enu(e, r), x, 1e-6, "east-north-up there and back");
  Eigen::Vector3d p = Lla(g, c);
  if (g.Coin(0.8)) {
    p(0) = std::max(-90.0, std::min(90.0, r(0) + g.Sym(0.2)));
    p(1) = std::max(-180.0, std::min(180.0, r(1) + g.Sym(0.2)));
  }
  ref::V3 d = Axes(r) * (Ecef(p) - Ecef(r));
  CheckNear(c, lla_to_enu(p, r), d.cast<double>(), 2e-6, "east-north-up of a geodetic point");
  CheckNear(c, ecef_to_enu(Ecef(p).cast<double>(), r), d.cast<double>(), 2e-6, "east-north-up of an Earth-centred point");
  // below the surface too deep is outside the working range of the inverse
  if (want.norm() > 6.3e6L) {
    Eigen::Vector3d l = enu_to_lla(x, r);
    CheckNear(c, Ecef(l).cast<double>(), want.cast<double>(), 1e-5, "geodetic position of a local point");
    CheckNear(c, lla_to_enu(l, r), x, 2e-5, "local point there and back through geodetic coordinates");
  }
}

static void LocalFrame(Gen & g, Case & c)
{
  Eigen::Vector3d x = Enu(g);
  double a = g.Coin(0.2) ? g.Pick(std::vector<double>{0.0, 1.5707963267948966, -1.5707963267948966, 3.141592653589793}) : g.Sym(10.0);
  c.note << "point " << S(x) << " heading " << a;
  if (x.norm() > 0 && a != 0) {c.NonTrivial();}
  ref::M3 r = ref::Exp(Eigen::Vector3d(0, 0, a));
  double tol = 1e-9 * (1 + x.norm());
  CheckNear(c, enu_to_local(x, a), (r * x.cast<real>()).cast<double>(), tol, "local position of an east-north-up point");
  CheckNear(c, local_to_enu(x, a), (r.transpose() * x.cast<real>()).cast<double>(), tol, "east-north-up position of a local point");
  CheckNear(c, enu_to_local(local_to_enu(x, a), a), x, tol, "local point there and back");
  double m = g.Sym(1.0) * g.Log(1e-3, 1e6);
  c.Check(Near(wgs84_m_to_deg(m), static_cast<double>(m / A * 180 / PI), 1e-12 * (1 + std::abs(m))), "metres to degrees");
}

static void OutOfRange(Gen & g, Case & c)
{
  Eigen::Vector3d l = Lla(g, c);
  int k = g.Int(0, 1);
  l(k) = (g.Coin() ? 1 : -1) * ((k ? 180.0 : 90.0) + g.Log(1e-9, 1e6));
  c.note << "lla " << S(l);
  c.NonTrivial();
  Eigen::Vector3d e = lla_to_ecef(l);
  CheckNear(c, e, Eigen::Vector3d::Zero(), 0.0, "position of coordinates out of range");
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C10";
  p.rule = "geodetic points over the whole globe (poles, near poles, equator, antimeridian, altitudes -9 km to 20 km), local offsets from zero to 20 km, any heading; "
    "non-trivial: the offset and heading are not zero (every geodetic point counts)";
  p.assumptions.push_back("points within 70 km of the ellipsoid: the inverse is not specified deep inside the Earth");
  p.Add("geodetic_ecef", 1000000, 20000000, LlaEcef);
  p.Add("east_north_up", 800000, 20000000, EnuFrames);
  p.Add("local_frame", 800000, 20000000, LocalFrame);
  p.Add("out_of_range", 100000, 1000000, OutOfRange);
  return pbt::Main(argc, argv, {p});
}
