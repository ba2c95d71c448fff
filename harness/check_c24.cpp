// C24: the simulation program runs what its configuration says
// NEEDS_SIM
#include "files.hpp"
#include "logdir.hpp"
#include "truth.hpp"

#include <fcntl.h>
#include <spawn.h>
#include <sys/wait.h>

#include <algorithm>
#include <iomanip>
#include <list>
#include <set>

#include "infrastructure/sim/truth_engine_smoother.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "sensors/sim/sim_camera_message.hpp"
#include "sensors/sim/sim_gps.hpp"
#include "sensors/sim/sim_gps_message.hpp"
#include "sensors/sim/sim_imu.hpp"
#include "sensors/sim/sim_imu_message.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "utility/gps_helper.hpp"
#include "utility/sim/sim_rng.hpp"
#include "utility/type_helper.hpp"

using namespace pbt;
using Eigen::Vector3d;
using Eigen::Quaterniond;

typedef std::vector<double> V;

static std::string Num(double x)
{
  std::ostringstream o;
  o << std::setprecision(17) << x;
  std::string s = o.str();
  if (s.find_first_of(".en") == std::string::npos) {s += ".0";}
  return s;
}

// A YAML map in insertion order
struct Y
{
  std::list<std::pair<std::string, Y>> kids;
  std::string text;
  Y & operator[](const std::string & k)
  {
    for (auto & i : kids) {if (i.first == k) {return i.second;}}
    kids.push_back({k, Y()});
    return kids.back().second;
  }
  void operator=(double v) {text = Num(v);}
  void operator=(int v) {text = std::to_string(v);}
  void operator=(unsigned int v) {text = std::to_string(v);}
  void operator=(bool v) {text = v ? "true" : "false";}
  void operator=(const char * v) {text = "\"" + std::string(v) + "\"";}
  void operator=(const std::string & v) {text = "\"" + v + "\"";}
  void operator=(const V & v)
  {
    text = "[";
    for (size_t i = 0; i < v.size(); ++i) {text += (i ? ", " : "") + Num(v[i]);}
    text += "]";
  }
  void operator=(const std::vector<std::string> & v)
  {
    text = "[";
    for (size_t i = 0; i < v.size(); ++i) {text += (i ? ", \"" : "\"") + v[i] + "\"";}
    text += "]";
  }
  void Write(std::ostream & o, int indent = 0) const
  {
    for (auto & i : kids) {
      o << std::string(indent, ' ') << i.first << ": " << i.second.text << "\n";
      i.second.Write(o, indent + 4);
    }
  }
};

static Vector3d RotVec(Quaterniond q)
{
  if (q.w() < 0) {q.coeffs() *= -1;}
  double n = q.vec().norm();
  return n < 1e-300 ? Vector3d(0, 0, 0) : Vector3d(q.vec() / n * 2 * std::atan2(n, q.w()));
}
static V Std(const Eigen::VectorXd & v) {return V(v.data(), v.data() + v.size());}
static V Std(const Quaterniond & q) {return V{q.w(), q.x(), q.y(), q.z()};}

// What a configuration says
struct ImuC {std::string name; IMU::Parameters p; SimIMU::Parameters s;};
struct GpsC {std::string name; GPS::Parameters p; SimGPS::Parameters s;};
struct CamC {std::string name; Camera::Parameters p; SimCamera::Parameters s;};
struct Cfg
{
  Y yaml;
  EKF::Parameters ekf;
  unsigned int seed{1};
  double max_time{10}, stationary{0.1};
  std::string truth{"cyclic"};
  Vector3d pos_f{0, 0, 0}, ang_f{0, 0, 0}, pos_o{0, 0, 0}, ang_o{0, 0, 0};
  double pos_a{1.0}, ang_a{0.1};
  V times, positions, angles, pos_errors{0, 0, 0}, ang_errors{0, 0, 0};
  Vector3d pos_error{0, 0, 0}, ang_error{0, 0, 0}, ref_error{0, 0, 0};
  double heading_error{0};
  std::vector<ImuC> imus;
  std::vector<GpsC> gps;
  std::vector<CamC> cams;
  std::map<std::string, SimFeatureTracker::Parameters> trackers;
  std::map<std::string, SimFiducialTracker::Parameters> boards;
  std::vector<std::string> tracker_list, board_list;
  unsigned int level{0};
};

// Sets a value in the configuration, or leaves its default in place
struct Setter
{
  Gen & g;
  Case & c;
  double omit;
  int omitted{0};
  template<class T, class U> void Set(Y & y, const std::string & key, T & target, const U & value)
  {
    if (g.Coin(omit)) {++omitted; return;}
    target = value;
    y[key] = value;
  }
  void Set(Y & y, const std::string & key, Vector3d & target, const Vector3d & value)
  {
    if (g.Coin(omit)) {++omitted; return;}
    target = value;
    y[key] = Std(value);
  }
  void Set(Y & y, const std::string & key, Quaterniond & target, const Quaterniond & value)
  {
    if (g.Coin(omit)) {++omitted; return;}
    // The program normalizes what it reads
    target = Quaterniond(value.w(), value.x(), value.y(), value.z()).normalized();
    y[key] = Std(value);
  }
};

static Vector3d Any(Gen & g, double a) {return Vector3d(g.Sym(a), g.Sym(a), g.Sym(a));}
static Quaterniond AnyQ(Gen & g) {return gen::Quat(g);}
static Vector3d Sd(Gen & g, double lo, double hi)
{
  // three magnitudes far apart, in any order
  double m = std::pow(hi / lo, 1.0 / 3.0);
  V v{lo * g.Real(0.9, 1.1), lo * m * g.Real(0.9, 1.1), lo * m * m * g.Real(0.9, 1.1)};
  int i = g.Int(0, 2);
  std::swap(v[0], v[i]);
  if (g.Coin()) {std::swap(v[1], v[2]);}
  return Vector3d(v[0], v[1], v[2]);
}

static V Waypoints(Gen & g, int n, double a)
{
  V v;
  for (int i = 0; i < n; ++i) {
    for (int k = 0; k < 3; ++k) {v.push_back(g.Sym(a) + (k == 0 ? 0.3 * a * i : 0.0));}
  }
  return v;
}

static std::string Name(Gen & g, const std::string & kind, int i)
{
  static const std::vector<std::string> base{"a", "front", "unit_1", "X9", "left"};
  return g.Pick(base) + "_" + kind + std::to_string(i);
}

struct Want {bool errors; int max_imu, max_cam, max_gps; bool imu; };

static Cfg Config(Gen & g, Case & c, const Want & w)
{
  Cfg f;
  bool exact = !w.errors;
  Setter s{g, c, g.Coin() ? 0.0 : 0.25};
  Y & r = f.yaml["/EkfCalNode"]["ros__parameters"];
  Y & sim = r["sim_params"];
  f.ekf.augmenting_type = AugmentationType::ALL;
  f.ekf.pos_b_in_l = f.ekf.pos_e_in_g = Vector3d::Zero();
  f.ekf.ang_b_to_l = Quaterniond::Identity();
  f.ekf.ang_l_to_e = 0.0;
  f.ekf.augmenting_delta_time = 1.0;
  f.ekf.augmenting_pos_error = 0.1;
  f.ekf.augmenting_ang_error = 0.1;
  f.ekf.gps_init_type = GpsInitType::CONSTANT;
  f.ekf.gps_init_baseline_dist = f.ekf.gps_init_pos_thresh = f.ekf.gps_init_ang_thresh = 1.0;
  f.ekf.motion_detection_chi_squared = 1.0;
  f.ekf.imu_noise_scale_factor = 100.0;
  f.ekf.use_root_covariance = true;
  f.ekf.use_first_estimate_jacobian = false;
  f.level = g.Coin(0.7) ? 0 : g.UInt(1, 4);
  r["debug_log_level"] = f.level;
  r["data_log_rate"] = f.ekf.data_log_rate = g.Coin(0.1) ? 0.0 : g.Real(20.0, 200.0);
  if (!g.Coin(s.omit)) {
    int t = g.Int(0, 4);
    r["augmenting_type"] = t;
    f.ekf.augmenting_type = static_cast<AugmentationType>(t);
  }
  s.Set(r, "augmenting_delta_time", f.ekf.augmenting_delta_time, g.Real(0.05, 0.6));
  s.Set(r, "augmenting_pos_error", f.ekf.augmenting_pos_error, g.Log(0.001, 1.0));
  s.Set(r, "augmenting_ang_error", f.ekf.augmenting_ang_error, g.Log(0.001, 1.0));
  f.ekf.process_noise.resize(g_body_state_size);
  const char * noise[] = {"pos", "vel", "acc", "ang_pos", "ang_vel", "ang_acc"};
  for (int i = 0; i < 6; ++i) {
    double v = 1e-2;
    s.Set(r["process_noise"], noise[i], v, g.Log(1e-4, 1.0));
    f.ekf.process_noise.segment<3>(3 * i).setConstant(v);
  }
  s.Set(r, "pos_b_in_l", f.ekf.pos_b_in_l, Any(g, 5.0));
  s.Set(r, "ang_b_to_l", f.ekf.ang_b_to_l, AnyQ(g));
  s.Set(r, "pos_e_in_g", f.ekf.pos_e_in_g, Vector3d(g.Sym(70.0), g.Sym(179.0), g.Sym(500.0)));
  s.Set(r, "ang_l_to_e", f.ekf.ang_l_to_e, g.Sym(3.0));
  if (!g.Coin(s.omit)) {
    int t = g.Int(0, 2);
    r["gps_init_type"] = t;
    f.ekf.gps_init_type = static_cast<GpsInitType>(t);
  }
  s.Set(r, "gps_init_baseline_dist", f.ekf.gps_init_baseline_dist, g.Log(0.1, 100.0));
  s.Set(r, "gps_init_pos_thresh", f.ekf.gps_init_pos_thresh, g.Log(0.1, 10.0));
  s.Set(r, "gps_init_ang_thresh", f.ekf.gps_init_ang_thresh, g.Log(0.01, 3.0));
  s.Set(r, "motion_detection_chi_squared", f.ekf.motion_detection_chi_squared, g.Log(0.01, 10.0));
  s.Set(r, "imu_noise_scale_factor", f.ekf.imu_noise_scale_factor, g.Log(1.0, 1000.0));
  s.Set(r, "use_root_covariance", f.ekf.use_root_covariance, g.Coin());
  s.Set(r, "use_first_estimate_jacobian", f.ekf.use_first_estimate_jacobian, g.Coin());

  if (!w.errors) {s.Set(sim, "seed", f.seed, g.UInt(1, 1000));}
  f.max_time = g.Real(0.5, w.errors ? 0.8 : 1.5);
  sim["max_time"] = f.max_time;
  double stationary = g.Coin(0.3) ? g.Real(0.0, 0.1) : g.Real(0.1, 0.4);
  s.Set(sim, "stationary_time", f.stationary, stationary);
  f.stationary = std::max(f.stationary, 0.1);
  int kind = g.Int(0, 5);
  if (kind == 0) {
    f.truth = "spline";
    sim["truth_type"] = "spline";
    f.positions = Waypoints(g, g.Int(4, 6), 1.0);
    f.angles = Waypoints(g, g.Int(4, 6), 0.2);
    sim["positions"] = f.positions;
    sim["angles"] = f.angles;
  } else if (kind == 1) {
    f.truth = "smoother";
    sim["truth_type"] = "smoother";
    int n = g.Int(5, 9);
    double t = 0;
    for (int i = 0; i < n; ++i) {f.times.push_back(t); t += f.max_time / (n - 1);}
    f.positions = Waypoints(g, n, 0.5);
    f.angles = Waypoints(g, n, 0.1);
    sim["times"] = f.times;
    sim["positions"] = f.positions;
    sim["angles"] = f.angles;
  } else {
    if (g.Coin()) {sim["truth_type"] = "cyclic";}
    s.Set(sim, "pos_frequency", f.pos_f, Vector3d(Any(g, 1.0).cwiseAbs()));
    s.Set(sim, "ang_frequency", f.ang_f, Vector3d(Any(g, 1.0).cwiseAbs()));
    s.Set(sim, "pos_offset", f.pos_o, Any(g, 2.0));
    s.Set(sim, "ang_offset", f.ang_o, Any(g, 1.0));
    s.Set(sim, "pos_amplitude", f.pos_a, g.Real(0.1, 2.0));
    s.Set(sim, "ang_amplitude", f.ang_a, g.Real(0.01, 0.5));
  }
  if (w.errors) {
    s.Set(sim, "pos_b_in_l_error", f.pos_error, Sd(g, 1e-3, 1.0));
    Vector3d a = Sd(g, 1e-3, 0.2);
    s.Set(sim, "ang_b_to_l_error", f.ang_error, a);
    s.Set(sim, "pos_e_in_g_error", f.ref_error, Vector3d(g.Log(1.0, 10.0) * 1e3, g.Log(1.0, 10.0) * 1e3, g.Log(1.0, 10.0)));
    s.Set(sim, "ang_l_to_e_error", f.heading_error, g.Log(0.01, 0.3));
  }

  std::vector<std::string> list;
  auto sensor = [&](Y & y, Sensor::Parameters & p, double lo, double hi) {
      y["rate"] = p.rate = g.Real(lo, hi);
      if (g.Coin()) {y["topic"] = p.topic = "/some_topic";}
      y["data_log_rate"] = p.data_log_rate = g.Coin(0.1) ? 0.0 : g.Real(5.0, 2 * hi);
    };
  // a section that no list names is not used
  if (g.Coin(0.3)) {r["imu"]["unused_imu"]["rate"] = 10.0;}
  int n = w.imu ? g.Int(1, w.max_imu) : g.Int(0, w.max_imu);
  for (int i = 0; i < n; ++i) {
    ImuC m;
    m.name = Name(g, "imu", i);
    Y & y = r["imu"][m.name];
    Y & z = y["sim_params"];
    auto & p = m.p;
    sensor(y, p, 20.0, 100.0);
    p.is_extrinsic = p.is_intrinsic = false;
    s.Set(y, "is_extrinsic", p.is_extrinsic, g.Coin());
    s.Set(y, "is_intrinsic", p.is_intrinsic, g.Coin());
    p.variance.resize(12);
    for (int k = 0; k < 12; ++k) {p.variance(k) = g.Log(1e-4, 1e-1);}
    y["variance"] = Std(p.variance);
    p.pos_i_in_b = p.acc_bias = p.omg_bias = Vector3d::Zero();
    p.ang_i_to_b = Quaterniond::Identity();
    s.Set(y, "pos_i_in_b", p.pos_i_in_b, Any(g, 0.5));
    s.Set(y, "ang_i_to_b", p.ang_i_to_b, AnyQ(g));
    s.Set(y, "acc_bias", p.acc_bias, Any(g, 0.1));
    s.Set(y, "omg_bias", p.omg_bias, Any(g, 0.1));
    p.pos_stability = p.ang_stability = p.acc_bias_stability = p.omg_bias_stability = 1e-9;
    s.Set(y, "pos_stability", p.pos_stability, g.Log(1e-6, 1e-2));
    s.Set(y, "ang_stability", p.ang_stability, g.Log(1e-6, 1e-2));
    s.Set(y, "acc_bias_stability", p.acc_bias_stability, g.Log(1e-6, 1e-2));
    s.Set(y, "omg_bias_stability", p.omg_bias_stability, g.Log(1e-6, 1e-2));
    z["no_errors"] = m.s.no_errors = exact;
    m.s.time_error = 0.0;
    m.s.acc_error = Vector3d(g.Log(1e-3, 1e-1), g.Log(1e-3, 1e-1), g.Log(1e-3, 1e-1));
    m.s.omg_error = Vector3d(g.Log(1e-3, 1e-1), g.Log(1e-3, 1e-1), g.Log(1e-3, 1e-1));
    z["acc_error"] = Std(m.s.acc_error);
    z["omg_error"] = Std(m.s.omg_error);
    m.s.pos_error = m.s.ang_error = m.s.acc_bias_error = m.s.omg_bias_error = Vector3d::Zero();
    s.Set(z, "time_error", m.s.time_error, g.Coin() ? 0.0 : g.Log(3e-3, 1e-2));
    s.Set(z, "pos_error", m.s.pos_error, Sd(g, 1e-3, 1.0));
    s.Set(z, "ang_error", m.s.ang_error, Sd(g, 1e-4, 0.05));
    s.Set(z, "acc_bias_error", m.s.acc_bias_error, Sd(g, 1e-2, 10.0));
    s.Set(z, "omg_bias_error", m.s.omg_bias_error, Sd(g, 1e-5, 0.01));
    f.imus.push_back(m);
    list.push_back(m.name);
  }
  r["imu_list"] = list;
  list.clear();

  n = g.Coin() ? 0 : g.Int(1, 2);
  if (w.max_cam == 0) {n = 0;}
  for (int i = 0; i < n; ++i) {
    SimFeatureTracker::Parameters t;
    auto & p = t.tracker_params;
    p.name = Name(g, "trk", i);
    Y & y = r["tracker"][p.name];
    Y & z = y["sim_params"];
    p.px_error = 1.0;
    p.min_track_length = 2;
    p.max_track_length = 20;
    p.min_feat_dist = 1.0;
    s.Set(y, "pixel_error", p.px_error, g.Log(0.1, 10.0));
    s.Set(y, "min_track_length", p.min_track_length, g.UInt(2, 4));
    s.Set(y, "max_track_length", p.max_track_length, g.UInt(5, 12));
    s.Set(y, "min_feature_distance", p.min_feat_dist, g.Log(0.1, 10.0));
    t.feature_count = g.UInt(20, 40);
    z["feature_count"] = t.feature_count;
    t.room_size = 10.0;
    s.Set(z, "room_size", t.room_size, g.Real(3.0, 20.0));
    t.no_errors = exact;
    z["no_errors"] = exact;
    f.trackers[p.name] = t;
    list.push_back(p.name);
  }
  r["tracker_list"] = list;
  f.tracker_list = list;
  list.clear();

  n = w.max_cam == 0 ? 0 : g.Int(0, 2);
  for (int i = 0; i < n; ++i) {
    SimFiducialTracker::Parameters t;
    auto & p = t.fiducial_params;
    p.name = Name(g, "fid", i);
    Y & y = r["fiducial"][p.name];
    Y & z = y["sim_params"];
    p.detector_type = FiducialType::CHARUCO_BOARD;
    if (g.Coin()) {y["fiducial_type"] = 1;}
    p.squares_x = g.UInt(3, 7);
    p.squares_y = g.UInt(3, 7);
    p.square_length = 0.04;
    p.marker_length = 0.02;
    y["squares_x"] = p.squares_x;
    y["squares_y"] = p.squares_y;
    y["square_length"] = p.square_length;
    y["marker_length"] = p.marker_length;
    p.id = static_cast<unsigned int>(i);
    if (i != 0 || g.Coin()) {y["id"] = p.id = 3 * static_cast<unsigned int>(i) + g.UInt(0, 2);}
    p.is_extrinsic = false;
    p.pos_f_in_l = Vector3d::Zero();
    p.ang_f_to_l = Quaterniond::Identity();
    s.Set(y, "pos_f_in_l", p.pos_f_in_l, Any(g, 5.0));
    s.Set(y, "ang_f_to_l", p.ang_f_to_l, AnyQ(g));
    p.variance.resize(6);
    for (int k = 0; k < 6; ++k) {p.variance(k) = g.Log(1e-3, 1e-1);}
    y["variance"] = Std(p.variance);
    p.min_track_length = 2;
    p.max_track_length = 20;
    s.Set(y, "max_track_length", p.max_track_length, g.UInt(1, 12));
    s.Set(y, "is_extrinsic", p.is_extrinsic, g.Coin());
    t.pos_error = t.ang_error = Vector3d::Zero();
    t.t_vec_error = Vector3d(g.Log(1e-3, 1e-1), g.Log(1e-3, 1e-1), g.Log(1e-3, 1e-1));
    t.r_vec_error = Vector3d(g.Log(1e-3, 1e-1), g.Log(1e-3, 1e-1), g.Log(1e-3, 1e-1));
    z["t_vec_error"] = Std(t.t_vec_error);
    z["r_vec_error"] = Std(t.r_vec_error);
    s.Set(z, "pos_error", t.pos_error, Sd(g, 1e-3, 1.0));
    s.Set(z, "ang_error", t.ang_error, Sd(g, 1e-4, 0.05));
    t.no_errors = exact;
    z["no_errors"] = exact;
    f.boards[p.name] = t;
    list.push_back(p.name);
  }
  r["fiducial_list"] = list;
  f.board_list = list;
  list.clear();

  n = g.Int(0, w.max_cam);
  std::set<std::string> used;
  for (int i = 0; i < n; ++i) {
    CamC m;
    m.name = Name(g, "cam", i);
    Y & y = r["camera"][m.name];
    Y & z = y["sim_params"];
    auto & p = m.p;
    sensor(y, p, 5.0, 15.0);
    p.is_extrinsic = false;
    s.Set(y, "is_extrinsic", p.is_extrinsic, g.Coin());
    p.variance.resize(6);
    for (int k = 0; k < 6; ++k) {p.variance(k) = g.Log(1e-4, 1e-1);}
    y["variance"] = Std(p.variance);
    p.pos_c_in_b = Vector3d::Zero();
    p.ang_c_to_b = Quaterniond::Identity();
    s.Set(y, "pos_c_in_b", p.pos_c_in_b, Any(g, 0.5));
    s.Set(y, "ang_c_to_b", p.ang_c_to_b, AnyQ(g));
    p.pos_stability = p.ang_stability = 1e-9;
    s.Set(y, "pos_stability", p.pos_stability, g.Log(1e-6, 1e-2));
    s.Set(y, "ang_stability", p.ang_stability, g.Log(1e-6, 1e-2));
    if (!f.tracker_list.empty() && g.Coin(0.7)) {y["tracker"] = p.tracker = g.Pick(f.tracker_list);}
    if (!f.board_list.empty() && g.Coin(0.7)) {
      // one camera for each board
      std::string b = g.Pick(f.board_list);
      if (used.insert(b).second) {y["fiducial"] = p.fiducial = b;}
    }
    auto & q = p.intrinsics;
    q.f_x = q.f_y = 0.01;
    q.k_1 = q.k_2 = q.p_1 = q.p_2 = 0.0;
    q.width = 640;
    q.height = 480;
    q.pixel_size = 5e-6;
    Y & v = y["intrinsics"];
    s.Set(v, "f_x", q.f_x, g.Real(0.003, 0.01));
    s.Set(v, "f_y", q.f_y, g.Real(0.003, 0.01));
    s.Set(v, "k_1", q.k_1, g.Coin() ? 0.0 : g.Sym(0.05));
    s.Set(v, "k_2", q.k_2, g.Coin() ? 0.0 : g.Sym(0.01));
    s.Set(v, "p_1", q.p_1, g.Coin() ? 0.0 : g.Sym(0.005));
    s.Set(v, "p_2", q.p_2, g.Coin() ? 0.0 : g.Sym(0.005));
    s.Set(v, "width", q.width, double(g.Int(300, 900)));
    s.Set(v, "height", q.height, double(g.Int(300, 900)));
    s.Set(v, "pixel_size", q.pixel_size, g.Real(4e-6, 1e-5));
    z["no_errors"] = m.s.no_errors = exact;
    m.s.time_error = 0;
    s.Set(z, "time_error", m.s.time_error, g.Coin() ? 0.0 : g.Log(1e-4, 1e-3));
    m.s.pos_error = m.s.ang_error = Vector3d::Zero();
    s.Set(z, "pos_error", m.s.pos_error, Sd(g, 1e-3, 1.0));
    s.Set(z, "ang_error", m.s.ang_error, Sd(g, 1e-4, 0.05));
    f.cams.push_back(m);
    list.push_back(m.name);
  }
  r["camera_list"] = list;
  list.clear();

  n = g.Int(0, w.max_gps);
  for (int i = 0; i < n; ++i) {
    GpsC m;
    m.name = Name(g, "gps", i);
    Y & y = r["gps"][m.name];
    Y & z = y["sim_params"];
    auto & p = m.p;
    sensor(y, p, 3.0, 20.0);
    p.is_extrinsic = false;
    s.Set(y, "is_extrinsic", p.is_extrinsic, g.Coin());
    p.variance = Vector3d(g.Log(1e-3, 1.0), g.Log(1e-3, 1.0), g.Log(1e-3, 1.0));
    y["variance"] = Std(p.variance);
    p.pos_a_in_b = Vector3d::Zero();
    s.Set(y, "pos_a_in_b", p.pos_a_in_b, Any(g, 1.0));
    p.pos_stability = g.Log(1e-6, 1e-2);
    y["pos_stability"] = p.pos_stability;
    z["no_errors"] = m.s.no_errors = exact;
    m.s.time_error = 0;
    s.Set(z, "time_error", m.s.time_error, g.Coin() ? 0.0 : g.Log(1e-4, 1e-3));
    m.s.lla_error = Vector3d(g.Log(1e-2, 1.0), g.Log(1e-2, 1.0), g.Log(1e-2, 1.0));
    z["lla_error"] = Std(m.s.lla_error);
    m.s.pos_a_in_b_err = Vector3d::Zero();
    s.Set(z, "pos_a_in_b_err", m.s.pos_a_in_b_err, Sd(g, 1e-3, 1.0));
    f.gps.push_back(m);
    list.push_back(m.name);
  }
  r["gps_list"] = list;
  c.note << f.imus.size() << " IMUs, " << f.cams.size() << " cameras, " << f.gps.size() << " GPS, " << f.tracker_list.size() <<
    " trackers, " << f.board_list.size() << " boards, " << f.truth << " truth, " << s.omitted << " keys omitted, max_time " << f.max_time << "; ";
  if (s.omitted) {c.Label("keys omitted");}
  c.Label("truth " + f.truth);
  return f;
}

// Runs the program
struct Run
{
  Scratch dir;
  std::string out, err;
  Run(Case & c, const Cfg & f, unsigned int seed)
  {
    Cfg g = f;
    g.yaml["/EkfCalNode"]["ros__parameters"]["sim_params"]["seed"] = seed;
    Start(c, g);
  }
  Run(Case & c, const Cfg & f) {Start(c, f);}
  static std::string All(const std::string & f)
  {
    std::ifstream i(f);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
  }
  void Start(Case & c, const Cfg & f)
  {
    std::string config = dir.dir + "config.yaml";
    {std::ofstream o(config); f.yaml.Write(o);}
    const char * sim = getenv("VERIF_SIM");
    if (!sim) {perror("VERIF_SIM"); exit(2);}
    pid_t p = fork();
    if (p == 0) {
      int o = open((dir.dir + "stdout").c_str(), O_CREAT | O_WRONLY, 0600), e = open((dir.dir + "stderr").c_str(), O_CREAT | O_WRONLY, 0600);
      dup2(o, 1);
      dup2(e, 2);
      execl(sim, sim, config.c_str(), dir.dir.c_str(), (char *) nullptr);
      _exit(126);
    }
    int status = 0;
    waitpid(p, &status, 0);
    out = All(dir.dir + "stdout");
    err = All(dir.dir + "stderr");
    if (WIFEXITED(status) && WEXITSTATUS(status) == 126) {perror("exec"); exit(2);}
    c.Check(WIFEXITED(status) && WEXITSTATUS(status) == 0, "the simulation ends with status " + std::to_string(status) + ": " + err.substr(0, 500));
    unlink((dir.dir + "stdout").c_str());
    unlink((dir.dir + "stderr").c_str());
    unlink(config.c_str());
  }
};

// The same simulation put together by hand, in a process of its own (sensors are numbered from one).
// order: what of the messages at the start time comes first
static std::shared_ptr<TruthEngine> Truth(const Cfg & f, std::shared_ptr<DebugLogger> log)
{
  if (f.truth == "cyclic") {
    return std::make_shared<TruthEngineCyclic>(f.pos_f, f.ang_f, f.pos_o, f.ang_o, f.pos_a, f.ang_a, f.stationary, f.max_time, log);
  }
  if (f.truth == "spline") {
    return std::make_shared<TruthEngineSpline>(f.positions, f.angles, f.pos_errors, f.ang_errors, f.stationary, f.max_time, log);
  }
  return std::make_shared<TruthEngineSmoother>(
    f.times, f.positions, f.angles, f.pos_errors, f.ang_errors, f.stationary, f.max_time, 1000.0, log);
}

static void ByHand(const Cfg & f, const std::string & dir, int order)
{
  auto log = truth::Silent();
  EKF::Parameters ep = f.ekf;
  ep.debug_logger = log;
  ep.log_directory = dir;
  if (f.tracker_list.empty()) {ep.augmenting_type = AugmentationType::NONE;}
  auto ekf = std::make_shared<EKF>(ep);
  SimRNG::SetSeed(f.seed);
  auto t = Truth(f, log);
  // Initial conditions have no errors, but use random numbers
  for (int i = 0; i < 9; ++i) {SimRNG::NormRand(0, 0);}
  BodyState b;
  b.pos_b_in_l = f.ekf.pos_b_in_l;
  b.ang_b_to_l = f.ekf.ang_b_to_l;
  ekf->Initialize(0.0, b);
  t->SetLocalPosition(f.ekf.pos_e_in_g);
  t->SetLocalHeading(f.ekf.ang_l_to_e);
  std::vector<std::shared_ptr<SensorMessage>> messages;
  std::map<unsigned int, std::function<void(std::shared_ptr<SensorMessage>)>> sensors;
  auto common = [&](Sensor::Parameters & p, const std::string & name) {
      p.ekf = ekf;
      p.logger = log;
      p.log_directory = dir;
      p.name = name;
    };
  auto take = [&](auto s, auto m) {
      sensors[s->GetId()] = [s](std::shared_ptr<SensorMessage> x) {
          s->Callback(*std::static_pointer_cast<typename decltype(m)::value_type::element_type>(x));
        };
      messages.insert(messages.end(), m.begin(), m.end());
    };
  for (auto m : f.imus) {
    common(m.p, m.name);
    m.s.imu_params = m.p;
    auto o = std::make_shared<SimIMU>(m.s, t);
    take(o, o->GenerateMessages());
  }
  unsigned int length = 0;
  for (auto & n : f.tracker_list) {length = std::max(length, f.trackers.at(n).tracker_params.max_track_length);}
  for (auto & n : f.board_list) {length = std::max(length, f.boards.at(n).fiducial_params.max_track_length);}
  ekf->SetMaxTrackLength(length);
  for (auto m : f.cams) {
    common(m.p, m.name);
    m.s.cam_params = m.p;
    auto o = std::make_shared<SimCamera>(m.s, t);
    if (!m.p.tracker.empty()) {
      auto k = f.trackers.at(m.p.tracker);
      auto & p = k.tracker_params;
      p.ekf = ekf;
      p.logger = log;
      p.log_directory = dir;
      p.camera_id = o->GetId();
      p.intrinsics = m.p.intrinsics;
      p.is_cam_extrinsic = m.p.is_extrinsic;
      p.data_log_rate = m.p.data_log_rate;
      o->AddTracker(std::make_shared<SimFeatureTracker>(k, t));
    }
    if (!m.p.fiducial.empty()) {
      auto k = f.boards.at(m.p.fiducial);
      auto & p = k.fiducial_params;
      p.ekf = ekf;
      p.logger = log;
      p.log_directory = dir;
      p.camera_id = o->GetId();
      p.intrinsics = m.p.intrinsics;
      p.is_cam_extrinsic = m.p.is_extrinsic;
      p.data_log_rate = m.p.data_log_rate;
      o->AddFiducial(std::make_shared<SimFiducialTracker>(k, t));
    }
    take(o, o->GenerateMessages());
  }
  for (auto m : f.gps) {
    common(m.p, m.name);
    m.s.gps_params = m.p;
    auto o = std::make_shared<SimGPS>(m.s, t);
    take(o, o->GenerateMessages());
  }
  if (f.ekf.data_log_rate != 0.0) {t->WriteTruthData(f.ekf.data_log_rate, dir);}
  if (order == 0) {
    std::sort(messages.begin(), messages.end(), MessageCompare);
  } else {
    std::stable_sort(messages.begin(), messages.end(), MessageCompare);
    size_t n = 0;
    while (n < messages.size() && messages[n]->time == messages[0]->time) {++n;}
    std::vector<size_t> at;
    for (size_t i = 0; i < n; ++i) {at.push_back(i);}
    for (int i = 1; i < order; ++i) {std::next_permutation(at.begin(), at.end());}
    auto first = messages;
    for (size_t i = 0; i < n; ++i) {messages[i] = first[at[i]];}
  }
  for (auto & m : messages) {sensors.at(m->sensor_id)(m);}
}

static bool Reference(const Cfg & f, const std::string & dir, int order)
{
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    dup2(n, 2);
    ByHand(f, dir, order);
    _exit(0);
  }
  int status = 0;
  waitpid(p, &status, 0);
  return WIFEXITED(status) && WEXITSTATUS(status) == 0;
}

static void CheckMessages(Case & c, const Run & r, unsigned int level)
{
  // Messages up to the level asked for; the severe ones as errors
  const char * names[] = {"FATAL", "ERROR", "WARN ", "INFO ", "DEBUG"};
  for (unsigned int i = 0; i < 5; ++i) {
    std::string tag = std::string("[") + names[i] + "]: ";
    bool out = r.out.find(tag) != std::string::npos, err = r.err.find(tag) != std::string::npos;
    if (i > level) {c.Check(!out && !err, "no message of level " + std::string(names[i]) + " at level " + names[level]);}
    if (i >= 3) {c.Check(!err, "information is not an error");} else {c.Check(!out, "errors are errors");}
  }
  if (level >= 3) {
    c.Check(r.out.find("[INFO ]: ") != std::string::npos, "information is shown at level " + std::string(names[level]));
    c.Label("messages shown");
  }
}

static void SameAsByHand(Gen & g, Case & c)
{
  Cfg f = Config(g, c, Want{false, 2, 2, 2, g.Coin(0.9)});
  Run run(c, f);
  CheckMessages(c, run, f.level);
  std::string diff;
  size_t sensors = f.imus.size() + f.cams.size() + f.gps.size(), orders = 1, rows = 0;
  for (size_t i = 2; i <= sensors; ++i) {orders *= i;}
  // Which sensor comes first at the start time is not specified
  for (int order = 0; order <= int(std::min<size_t>(orders, 120)); ++order) {
    Scratch dir;
    c.Check(Reference(f, dir.dir, order), "the simulation by hand ends");
    size_t n = 0;
    std::string d = Difference(run.dir.dir, dir.dir, false, &n);
    if (order == 0) {rows = n;}
    if (d.empty()) {diff = ""; if (order) {c.Label("other order at the start");} break;}
    if (order == 0) {diff = d;}
  }
  if (!diff.empty()) {
    // Not judged if a last-digit change of the inputs makes such a difference as well
    Cfg v = f;
    v.ekf.pos_b_in_l *= 1 + 4e-16;
    v.ekf.ang_b_to_l.coeffs() *= 1 + 4e-16;
    for (auto & m : v.imus) {m.p.ang_i_to_b.coeffs() *= 1 + 4e-16; m.s.acc_error *= 1 + 4e-16;}
    for (auto & m : v.cams) {m.p.ang_c_to_b.coeffs() *= 1 + 4e-16;}
    for (auto & m : v.boards) {m.second.fiducial_params.ang_f_to_l.coeffs() *= 1 + 4e-16;}
    Scratch p, q;
    c.Check(Reference(f, p.dir, 0) && Reference(v, q.dir, 0), "the simulation by hand ends");
    if (!Difference(p.dir, q.dir, false).empty()) {c.Label("sensitive to rounding"); return;}
  }
  c.Check(diff.empty(), diff);
  c.note << rows << " rows";
  if (rows >= 20 && sensors >= 1) {c.NonTrivial();}
  for (auto & m : f.cams) {
    if (!m.p.tracker.empty()) {c.Label("camera with tracker");}
    if (!m.p.fiducial.empty()) {c.Label("camera with board");}
  }
  if (!f.gps.empty()) {c.Label("GPS");}
  if (!f.imus.empty()) {c.Label("IMU");}
}

// Simulations with errors
static std::map<std::string, V> Columns(const std::string & file, size_t rows = 1)
{
  std::map<std::string, V> out;
  auto l = Lines(file);
  if (l.empty()) {return out;}
  auto head = Split(l[0]);
  for (size_t i = 1; i < l.size() && i <= rows; ++i) {
    auto w = Split(l[i]);
    for (size_t k = 0; k < head.size() && k < w.size(); ++k) {out[head[k]].push_back(atof(w[k].c_str()));}
  }
  return out;
}

// Errors in units of their deviations, over some seeds
struct Errors
{
  Case & c;
  std::map<std::string, double> most;
  void Add(const std::string & what, double error, double sd, double eps)
  {
    if (sd == 0) {
      c.Check(std::abs(error) <= eps, what + ": error " + Num(error) + " where none is asked for");
      return;
    }
    c.Check(std::abs(error) <= 6.5 * sd + eps, what + ": error " + Num(error) + " for a deviation of " + Num(sd));
    double & m = most[what];
    m = std::max(m, std::abs(error) / sd - eps / sd);
  }
  void End(bool many)
  {
    if (!many) {return;}
    for (auto & i : most) {
      c.Check(i.second > 0.02, i.first + ": no errors, though asked for (largest " + Num(i.second) + " deviations)");
    }
  }
};

static Quaterniond Q(std::map<std::string, V> & m, const std::string & n)
{
  Quaterniond q(m[n + "_0"].at(0), m[n + "_1"].at(0), m[n + "_2"].at(0), m[n + "_3"].at(0));
  return q.normalized();
}

static void WithErrors(Gen & g, Case & c)
{
  Cfg f = Config(g, c, g.Coin(0.6) ? Want{true, 2, 2, 2, true} : Want{true, 0, 2, 2, false});
  if (f.ekf.data_log_rate == 0) {c.Skip();}
  unsigned int first = g.UInt(1, 100000);
  Errors e{c, {}};
  V ref;
  const int seeds = 6;
  for (int i = 0; i < seeds; ++i) {
    Run r(c, f, first + 97u * i);
    CheckMessages(c, r, f.level);
    if (i == 0) {
      Run again(c, f, first);
      std::string d = Difference(again.dir.dir, r.dir.dir, true);
      c.Check(d.empty(), "a second run with the same seed differs: " + d);
    }
    auto t = Columns(r.dir.dir + "body_truth.csv");
    c.Check(!t.empty(), "the truth is written");
    auto get = [&](const std::string & n) {c.Check(t.count(n), "truth has " + n); return t[n].at(0);};
    unsigned int id = 0;
    auto vec = [&](const std::string & n, const Vector3d & mean, const Vector3d & sd) {
        for (int k = 0; k < 3; ++k) {
          double x = get(n + "_" + std::to_string(k));
          e.Add(n + "_" + std::to_string(k), x - mean(k), sd(k), 1e-5 * std::abs(mean(k)) + 1e-9 + 1e-5 * sd(k));
        }
      };
    auto rot = [&](const std::string & n, const Quaterniond & mean, const Vector3d & sd) {
        get(n + "_0");
        Vector3d d = RotVec(Q(t, n) * mean.inverse());
        for (int k = 0; k < 3; ++k) {e.Add(n + " about " + "xyz"[k], d(k), sd(k), 2e-5);}
      };
    for (auto & m : f.imus) {
      std::string k = std::to_string(++id);
      vec("imu_pos_" + k, m.p.pos_i_in_b, m.s.pos_error);
      rot("imu_ang_pos_" + k, m.p.ang_i_to_b, m.s.ang_error);
      vec("imu_acc_bias_" + k, m.p.acc_bias, m.s.acc_bias_error);
      vec("imu_gyr_bias_" + k, m.p.omg_bias, m.s.omg_bias_error);
    }
    for (auto & m : f.cams) {
      std::string k = std::to_string(++id);
      vec("cam_pos_" + k, m.p.pos_c_in_b, m.s.pos_error);
      rot("cam_ang_pos_" + k, m.p.ang_c_to_b, m.s.ang_error);
    }
    for (auto & m : f.gps) {
      std::string k = std::to_string(++id);
      vec("gps_pos_" + k, m.p.pos_a_in_b, m.s.pos_a_in_b_err);
    }
    if (!f.gps.empty()) {
      Vector3d sd(f.ref_error(0) / 111319.5, f.ref_error(1) / 111319.5, f.ref_error(2));
      const char * n[] = {"ref_lat", "ref_lon", "ref_alt"};
      for (int k = 0; k < 3; ++k) {
        e.Add(n[k], get(n[k]) - f.ekf.pos_e_in_g(k), sd(k) * (k < 2 ? 1.05 : 1.0), 1e-5 * std::abs(f.ekf.pos_e_in_g(k)) + 1e-9);
      }
      e.Add("ref_heading", get("ref_heading") - f.ekf.ang_l_to_e, f.heading_error, 1e-5 * std::abs(f.ekf.ang_l_to_e) + 1e-9);
      c.Label("GPS");
    }
    // Boards in use, in the order of their cameras
    std::map<std::string, V> boards = Columns(r.dir.dir + "board_truth.csv", 100);
    size_t k = 0;
    for (auto & m : f.cams) {
      if (m.p.fiducial.empty()) {continue;}
      auto & b = f.boards.at(m.p.fiducial);
      c.Check(k < boards["board"].size(), "the board is in the truth");
      const char * n[] = {"pos_x", "pos_y", "pos_z"};
      for (int j = 0; j < 3; ++j) {
        e.Add("board " + std::string(n[j]), boards[n[j]].at(k) - b.fiducial_params.pos_f_in_l(j), b.pos_error(j),
          1e-5 * std::abs(b.fiducial_params.pos_f_in_l(j)) + 1e-9 + 1e-5 * b.pos_error(j));
      }
      Quaterniond q(boards["quat_w"].at(k), boards["quat_x"].at(k), boards["quat_y"].at(k), boards["quat_z"].at(k));
      Vector3d d = RotVec(q.normalized() * b.fiducial_params.ang_f_to_l.inverse());
      for (int j = 0; j < 3; ++j) {e.Add("board about " + std::string(1, "xyz"[j]), d(j), b.ang_error(j), 2e-5);}
      c.Label("board");
      ++k;
    }
    c.Check(k == boards["board"].size(), "no other boards are in the truth");
    // The estimate starts from the truth of the configuration, with the initial errors
    auto s = Columns(r.dir.dir + "body_state.csv");
    // (IMU measurements at rest change it before it is logged)
    bool first_known = f.imus.empty();  // nor if the first measurement is before the start
    for (auto & m : f.cams) {first_known = first_known && m.s.time_error == 0;}
    for (auto & m : f.gps) {first_known = first_known && m.s.time_error == 0;}
    if (first_known && s.count("body_pos_0") && !s["body_pos_0"].empty()) {
      for (int k = 0; k < 3; ++k) {
        e.Add("initial position " + std::to_string(k), s["body_pos_" + std::to_string(k)].at(0) - f.ekf.pos_b_in_l(k), f.pos_error(k),
          1e-5 * std::abs(f.ekf.pos_b_in_l(k)) + 1e-9 + 1e-5 * f.pos_error(k));
      }
      Quaterniond q = Q(s, "body_ang_pos");
      Vector3d d = RotVec(q * f.ekf.ang_b_to_l.inverse());
      // rotations about x and then y of at most some tenths: about z nearly nothing
      double cross = 0.6 * 6.5 * f.ang_error(0) * 6.5 * f.ang_error(1);
      for (int k = 0; k < 2; ++k) {
        c.Check(std::abs(d(k)) <= 7.5 * f.ang_error(k) + 0.35 * cross + 2e-5, "initial orientation about " + std::string(1, "xy"[k]) + ": " + Num(d(k)) + " for " + Num(f.ang_error(k)));
        if (f.ang_error(k) > 0) {e.most["initial orientation " + std::string(1, "xy"[k])] = std::max(e.most["initial orientation " + std::string(1, "xy"[k])], std::abs(d(k)) / f.ang_error(k));}
      }
      c.Label("initial state");
    }
    // Different seeds are different runs
    V now;
    for (auto & k : t) {if (k.first.compare(0, 4, "imu_") == 0 || k.first.compare(0, 3, "gps") == 0 || k.first.compare(0, 3, "cam") == 0) {now.push_back(k.second[0]);}}
    if (!e.most.empty() && i > 0 && !ref.empty()) {
      bool errors = false;
      for (auto & m : f.imus) {errors = errors || m.s.pos_error.norm() > 0 || m.s.acc_bias_error.norm() > 0;}
      if (errors) {c.Check(now != ref, "another seed gives another truth");}
    }
    ref = now;
    // Measurement times
    for (size_t k = 0; k < f.imus.size(); ++k) {
      auto & m = f.imus[k];
      if (m.p.data_log_rate == 0.0) {continue;}
      auto l = Columns(r.dir.dir + "imu_" + std::to_string(k + 1) + ".csv", 100000);
      V & times = l["time"];
      for (double x : times) {
        c.Check(x >= -7 * m.s.time_error && x <= f.max_time + 1 / m.p.rate + 7 * m.s.time_error + 1e-5, "measurement at " + Num(x));
      }
    }
  }
  e.End(true);
  if (e.most.size() >= 3) {c.NonTrivial();}
}

// Stands apart: a run without a GPS, with a configuration that says nothing but what it must
static void Minimal(Gen & g, Case & c)
{
  Cfg f;
  Y & r = f.yaml["/EkfCalNode"]["ros__parameters"];
  std::vector<std::string> none;
  for (auto k : {"imu_list", "camera_list", "tracker_list", "fiducial_list", "gps_list"}) {
    if (g.Coin(0.7)) {r[k] = none;}
  }
  r["sim_params"]["max_time"] = g.Real(0.1, 2.0);
  double rate = g.Coin() ? 0.0 : g.Real(1.0, 50.0);
  r["data_log_rate"] = rate;
  Run run(c, f);
  CheckMessages(c, run, 0);
  auto files = Files(run.dir.dir);
  if (rate == 0.0) {c.Check(files.empty(), "nothing is logged without a rate");} else {c.NonTrivial();}
  c.Check((rate != 0.0) == (files.count("body_truth.csv") > 0), "the truth is written when data is logged");
  c.note << "rate " << rate << ", " << files.size() << " files";
}

// What is printed is what is logged at or above the level
static void Messages(Gen & g, Case & c)
{
  static const char * names[] = {"FATAL", "ERROR", "WARN", "INFO", "DEBUG"};
  static const std::vector<std::string> words{"file not found: ", "100%", "%s", "%n", "/home/%d/log", "a b", "{}", "IMU 1", "%%", "[ERROR]"};
  struct Capture
  {
    Capture() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {}
    ~Capture() {std::cout.rdbuf(o); std::cerr.rdbuf(e);}
    std::stringstream out, err;
    std::streambuf * o, * e;
  };
  unsigned int level = g.UInt(0, 4);
  c.note << "level " << level;
  std::shared_ptr<DebugLogger> log;
  if (g.Coin()) {log = std::make_shared<DebugLogger>(level, "");} else {log = std::make_shared<DebugLogger>(static_cast<LogLevel>(level), "");}
  int n = g.Int(1, 20);
  for (int i = 0; i < n; ++i) {
    std::string text, o, e;
    bool set = g.Coin(0.2);
    unsigned int at = g.UInt(0, 4);
    int parts = g.Int(0, 4);
    for (int k = 0; k < parts; ++k) {text += g.Pick(words);}
    bool number = g.Coin();
    {
      Capture cap;
      if (set && number) {log->SetLogLevel(at);}
      if (set && !number) {log->SetLogLevel(static_cast<LogLevel>(at));}
      if (!set) {log->Log(static_cast<LogLevel>(at), text);}
      o = cap.out.str();
      e = cap.err.str();
    }
    if (set) {
      level = at;
      c.note << "; set " << at;
      std::string said = o + e;
      size_t colon = said.rfind(": ");
      if (colon != std::string::npos) {c.Check(said.find(names[at], colon) != std::string::npos, "level " + std::to_string(at) + " announced: " + said);}
      continue;
    }
    c.note << "; " << at << " '" << text << "'";
    std::string want = at <= level ? "[" + std::string(names[at]) + (std::string(names[at]).size() == 4 ? " " : "") + "]: " + text + "\n" : "";
    c.Check(o + e == want, "level " + std::to_string(level) + ", logged " + std::to_string(at) + " '" + text + "', printed: '" + o + e + "'");
    if (at <= level) {c.NonTrivial();}
  }
}

int main(int argc, char ** argv)
{
  Property p;
  p.id = "C24";
  p.rule = "at least one sensor and 20 logged rows compared, or at least three kinds of errors asked for, or a run that logs; messages: one that is printed";
  p.assumptions = {
    "IMU, GPS, camera, tracker and board classes are judged by C18 to C22; here they are the reference for what the program builds from them",
    "the order of measurements at the start time is not specified",
    "one camera for each board"};
  p.Add("same-as-by-hand", 500, 8000, SameAsByHand, 120);
  p.Add("errors", 200, 3000, WithErrors, 120);
  p.Add("minimal", 30, 200, Minimal);
  p.Add("messages", 10000, 100000, Messages);
  return Main(argc, argv, {p});
}
