// C19: simulated IMU and GPS measurements
#include "geo.hpp"
#include "truth.hpp"

#include "sensors/sim/sim_gps.hpp"
#include "sensors/sim/sim_gps_message.hpp"
#include "sensors/sim/sim_imu.hpp"
#include "sensors/sim/sim_imu_message.hpp"
#include "utility/sim/sim_rng.hpp"

using namespace truth;

static Vector3d AnyError(Gen & g, double lo, double hi)
{
  Vector3d v;
  for (int i = 0; i < 3; ++i) {v[i] = g.Coin(0.15) ? 0.0 : g.Log(lo, hi);}
  return v;
}

struct Ideal
{
  Vector3d acc, omg;
};
// Specific force and angular rate from the path of the sensor itself
static Ideal FromPath(Motion & m, double t, const Vector3d & p, const Quaterniond & q, const Vector3d & ab, const Vector3d & gb)
{
  auto path = [&](double s) -> ref::V3 {
      return m.engine->GetBodyPosition(s).cast<ref::real>() +
             ref::Rot(m.engine->GetBodyAngularPosition(s)) * p.cast<ref::real>();
    };
  double h = 4e-3 / m.fmax;
  auto second = [&](double k) -> ref::V3 {return (path(t + k) - 2 * path(t) + path(t - k)) / (k * k);};
  ref::V3 a = (4 * second(h / 2) - second(h)) / 3;
  ref::M3 rb = ref::Rot(m.engine->GetBodyAngularPosition(t)), ri = ref::Rot(q);
  auto turn = [&](double k) -> ref::V3 {
      ref::M3 r = ref::Rot(m.engine->GetBodyAngularPosition(t - k)).transpose() * ref::Rot(m.engine->GetBodyAngularPosition(t + k));
      return ref::Log(r) / (2 * k);
    };
  ref::V3 w = (4 * turn(h / 2) - turn(h)) / 3;
  Ideal i;
  i.acc = (ri.transpose() * (rb.transpose() * (a + ref::V3(0, 0, 9.80665L)))).cast<double>() + ab;
  i.omg = (ri.transpose() * w).cast<double>() + gb;
  return i;
}
// The same from the rates the motion reports
static Ideal FromRates(Motion & m, double t, const Vector3d & p, const Quaterniond & q, const Vector3d & ab, const Vector3d & gb)
{
  ref::M3 rb = ref::Rot(m.engine->GetBodyAngularPosition(t)), ri = ref::Rot(q);
  ref::V3 w = m.engine->GetBodyAngularRate(t).cast<ref::real>(), al = m.engine->GetBodyAngularAcceleration(t).cast<ref::real>(),
    a = m.engine->GetBodyAcceleration(t).cast<ref::real>(), r = p.cast<ref::real>();
  Ideal i;
  i.acc = (ri.transpose() * (rb.transpose() * (a + ref::V3(0, 0, 9.80665L)) + al.cross(r) + w.cross(w.cross(r)))).cast<double>() + ab;
  i.omg = (ri.transpose() * w).cast<double>() + gb;
  return i;
}

static SimIMU::Parameters ImuParams(Gen & g, double rate)
{
  SimIMU::Parameters p;
  p.imu_params.logger = Silent();
  p.imu_params.ekf = AnyEkf();
  p.imu_params.rate = rate;
  p.imu_params.is_extrinsic = g.Coin(0.3);
  p.imu_params.is_intrinsic = g.Coin(0.3);
  p.imu_params.pos_i_in_b = g.Coin(0.2) ? Vector3d::Zero() : Vec(g, 2);
  p.imu_params.ang_i_to_b = Quat(g);
  p.imu_params.acc_bias = g.Coin(0.3) ? Vector3d::Zero() : Vec(g, 1);
  p.imu_params.omg_bias = g.Coin(0.3) ? Vector3d::Zero() : Vec(g, 0.2);
  p.acc_error = AnyError(g, 1e-3, 1);
  p.omg_error = AnyError(g, 1e-4, 0.1);
  p.acc_bias_error = AnyError(g, 1e-3, 1);
  p.omg_bias_error = AnyError(g, 1e-4, 0.1);
  p.pos_error = AnyError(g, 1e-3, 1);
  p.ang_error = AnyError(g, 1e-3, 0.2);
  return p;
}

static void CheckDrawn(Case & c, const Vector3d & got, const Vector3d & mean, const Vector3d & sd, const char * what)
{
  for (int i = 0; i < 3; ++i) {
    c.Check(std::abs(got[i] - mean[i]) <= 7.5 * sd[i] + 1e-12, std::string(what) + " is " + S(got) + ", configured " + S(mean) + " with errors " + S(sd));
    c.Check(sd[i] == 0 || got[i] != mean[i], std::string(what) + " has no error in spite of deviation " + S(sd));
  }
}

static void Imu(Gen & g, Case & c, bool errors)
{
  double rate = g.Real(5.0, 200.0), max = errors ? 500 / rate : g.Real(0.2, 3.0);
  Motion m = AnyMotion(g, max);
  SimRNG::SetSeed(g.UInt(1, 1000000));
  auto p = ImuParams(g, rate);
  p.no_errors = !errors;
  p.time_error = g.Coin() ? 0.0 : g.Log(1e-4, 0.1) / rate;
  SimIMU imu(p, m.engine);
  auto msgs = imu.GenerateMessages();
  unsigned int id = imu.GetId();
  Vector3d pos = m.engine->GetImuPosition(id), ab = m.engine->GetImuAccelerometerBias(id), gb = m.engine->GetImuGyroscopeBias(id);
  Quaterniond ang = m.engine->GetImuAngularPosition(id);
  c.note << (m.cyclic ? "cyclic" : "spline") << " rate " << rate << " until " << max << " offset " << S(pos) << " bias " << S(ab) << S(gb);
  if (errors) {
    CheckDrawn(c, pos, p.imu_params.pos_i_in_b, p.pos_error, "true position");
    CheckDrawn(c, ab, p.imu_params.acc_bias, p.acc_bias_error, "true accelerometer bias");
    CheckDrawn(c, gb, p.imu_params.omg_bias, p.omg_bias_error, "true gyroscope bias");
    ref::V3 d = ref::Log(ref::Rot(ang) * ref::Rot(p.imu_params.ang_i_to_b).transpose());
    CheckDrawn(c, d.cast<double>(), Vector3d::Zero(), p.ang_error, "true orientation error");
  } else {
    c.Check(pos == p.imu_params.pos_i_in_b && ab == p.imu_params.acc_bias && gb == p.imu_params.omg_bias, "true values as configured");
    CheckRot(c, ang, p.imu_params.ang_i_to_b, 1e-12, "true orientation as configured");
  }
  std::vector<double> times;
  for (auto & x : msgs) {times.push_back(x->time);}
  if (errors) {CheckTimesScattered(c, times, rate, max, p.time_error);} else {CheckTimes(c, times, rate, max);}
  std::vector<Vector3d> ea, eg;
  for (auto & x : msgs) {
    c.Check(x->sensor_id == id && x->sensor_type == SensorType::IMU, "sensor of the message");
    Eigen::Matrix3d ca = p.acc_error.cwiseAbs2().asDiagonal(), cg = p.omg_error.cwiseAbs2().asDiagonal();
    CheckNear(c, x->acceleration_covariance, ca, 1e-12 * (1 + ca.norm()), "acceleration covariance");
    CheckNear(c, x->angular_rate_covariance, cg, 1e-12 * (1 + cg.norm()), "angular rate covariance");
    Ideal r = FromRates(m, x->time, pos, ang, ab, gb);
    double size = 10 + r.acc.norm() + r.omg.norm();
    if (errors) {
      ea.push_back(x->acceleration - r.acc);
      eg.push_back(x->angular_rate - r.omg);
      continue;
    }
    CheckNear(c, x->acceleration, r.acc, 1e-9 * size, "acceleration, t=" + S(x->time));
    CheckNear(c, x->angular_rate, r.omg, 1e-9 * size, "angular rate, t=" + S(x->time));
    double h = 4e-3 / std::max(m.fmax, 1e-3);
    if (m.cyclic && std::abs(x->time - m.start) > 2 * h) {
      r = FromPath(m, x->time, pos, ang, ab, gb);
      CheckNear(c, x->acceleration, r.acc, 2e-5 * size, "acceleration against the path of the sensor, t=" + S(x->time));
      CheckNear(c, x->angular_rate, r.omg, 1e-6 * size, "angular rate against the turn of the sensor, t=" + S(x->time));
    }
  }
  if (errors && ea.size() > 50) {
    CheckNoise(c, ea, p.acc_error, "acceleration noise");
    CheckNoise(c, eg, p.omg_error, "angular rate noise");
  }
  if (!msgs.empty() && pos.norm() > 0.01) {c.NonTrivial();}
}

static void Gps(Gen & g, Case & c, bool errors)
{
  double rate = g.Real(0.5, 50.0), max = errors ? 500 / rate : g.Real(0.5, 5.0);
  Motion m = AnyMotion(g, max);
  SimRNG::SetSeed(g.UInt(1, 1000000));
  Vector3d lla(g.Sym(80.0), g.Sym(179.0), g.Real(-100, 5000));
  double heading = g.Sym(3.1);
  m.engine->SetLocalPosition(lla);
  m.engine->SetLocalHeading(heading);
  SimGPS::Parameters p;
  p.gps_params.logger = Silent();
  p.gps_params.ekf = AnyEkf();
  p.gps_params.rate = rate;
  p.gps_params.pos_a_in_b = g.Coin(0.2) ? Vector3d::Zero() : Vec(g, 3);
  p.gps_params.is_extrinsic = g.Coin(0.3);
  p.lla_error = AnyError(g, 1e-2, 10);
  p.pos_a_in_b_err = AnyError(g, 1e-3, 1);
  p.no_errors = !errors;
  p.time_error = g.Coin() ? 0.0 : g.Log(1e-4, 0.1) / rate;
  SimGPS gps(p, m.engine);
  auto msgs = gps.GenerateMessages();
  Vector3d pos = m.engine->GetGpsPosition(gps.GetId());
  c.note << (m.cyclic ? "cyclic" : "spline") << " rate " << rate << " until " << max << " antenna " << S(pos) << " at " << S(lla) << " heading " << heading;
  if (errors) {
    CheckDrawn(c, pos, p.gps_params.pos_a_in_b, p.pos_a_in_b_err, "true antenna position");
  } else {
    c.Check(pos == p.gps_params.pos_a_in_b, "true antenna position as configured");
  }
  std::vector<double> times;
  for (auto & x : msgs) {times.push_back(x->time);}
  if (errors) {CheckTimesScattered(c, times, rate, max, p.time_error);} else {CheckTimes(c, times, rate, max);}
  std::vector<Vector3d> e;
  for (auto & x : msgs) {
    c.Check(x->sensor_id == gps.GetId() && x->sensor_type == SensorType::GPS, "sensor of the message");
    Eigen::Matrix3d cov = p.lla_error.cwiseAbs2().asDiagonal();
    CheckNear(c, x->pos_covariance, cov, 1e-12 * (1 + cov.norm()), "position covariance");
    Vector3d want = m.engine->GetBodyPosition(x->time) + (ref::Rot(m.engine->GetBodyAngularPosition(x->time)) * pos.cast<ref::real>()).cast<double>();
    Vector3d got = geo::Local(x->gps_lla, lla, heading);
    if (errors) {
      e.push_back(got - want);
    } else {
      CheckNear(c, got, want, 1e-5, "antenna position in the local frame, t=" + S(x->time));
    }
  }
  if (errors && e.size() > 50) {CheckNoise(c, e, p.lla_error, "position noise", 2e-5);}
  if (!msgs.empty() && pos.norm() > 0.01) {c.NonTrivial();}
}

// The same seed gives the same measurements; the estimator's start values do not matter for them
static void Repeat(Gen & g, Case & c)
{
  double rate = g.Real(5.0, 50.0), max = g.Real(0.2, 2.0);
  Motion m = AnyMotion(g, max);
  unsigned int seed = g.UInt(1, 1000000);
  auto p = ImuParams(g, rate);
  p.time_error = g.Log(1e-4, 0.1) / rate;
  std::vector<std::vector<std::shared_ptr<SimImuMessage>>> runs;
  c.note << "rate " << rate << " seed " << seed;
  for (int k = 0; k < 3; ++k) {
    SimRNG::SetSeed(k == 2 ? seed + 1 : seed);
    p.imu_params.ekf = AnyEkf(k == 1);
    SimIMU imu(p, m.engine);
    runs.push_back(imu.GenerateMessages());
  }
  c.Check(runs[0].size() == runs[1].size(), "as many measurements with the same seed");
  bool differ = runs[0].size() != runs[2].size();
  for (size_t i = 0; i < runs[0].size(); ++i) {
    c.Check(runs[0][i]->time == runs[1][i]->time && runs[0][i]->acceleration == runs[1][i]->acceleration &&
      runs[0][i]->angular_rate == runs[1][i]->angular_rate, "the same seed gives the same measurements");
    differ = differ || runs[0][i]->time != runs[2][i]->time;
  }
  c.Check(differ || runs[0].empty(), "another seed gives other measurements");
  if (!runs[0].empty()) {c.NonTrivial();}
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C19";
  p.rule = "at least one measurement, from a sensor away from the body origin";
  p.assumptions = {
    "noise is judged by mean, deviation and outliers of 500 measurements, with bounds of at least six standard errors",
    "the path of the sensor is differentiated numerically (cyclic motion); spline motion is judged with the rates it reports",
    "GPS conversion to the local frame by an independent WGS84 reference, to 10 micrometres"};
  p.Add("imu_exact", 3000, 100000, [](Gen & g, Case & c) {Imu(g, c, false);});
  p.Add("imu_noise", 600, 20000, [](Gen & g, Case & c) {Imu(g, c, true);});
  p.Add("gps_exact", 3000, 100000, [](Gen & g, Case & c) {Gps(g, c, false);});
  p.Add("gps_noise", 600, 20000, [](Gen & g, Case & c) {Gps(g, c, true);});
  p.Add("repeat", 400, 10000, Repeat);
  return pbt::Main(argc, argv, {p});
}
