// C25: the ROS node runs what its parameters say
// NEEDS_ROS
#include "files.hpp"
#include "logdir.hpp"
#include "truth.hpp"

#include <fcntl.h>
#include <regex>
#include <sys/wait.h>

#include <opencv2/aruco/charuco.hpp>
#include <yaml-cpp/yaml.h>

#include <rclcpp/rclcpp.hpp>
#include <cv_bridge/cv_bridge.hpp>
#include <sensor_msgs/msg/image.hpp>
#include <sensor_msgs/msg/imu.hpp>
#include <sensor_msgs/msg/nav_sat_fix.hpp>
#include <std_msgs/msg/float64_multi_array.hpp>

#include "application/ros/node/ekf_cal_node.hpp"
#include "sensors/camera_message.hpp"
#include "sensors/gps_message.hpp"
#include "sensors/imu_message.hpp"
#include "sensors/ros/ros_camera_message.hpp"
#include "sensors/ros/ros_gps_message.hpp"
#include "sensors/ros/ros_imu_message.hpp"
#include "utility/gps_helper.hpp"
#include "utility/ros_helper.hpp"

using namespace truth;

// The main program, under another name
int ros_main(int argc, char ** argv);

typedef std::vector<double> V;
typedef std::vector<std::string> L;
static V Std(const Eigen::VectorXd & v) {return V(v.data(), v.data() + v.size());}
static V Std(const Quaterniond & q) {return V{q.w(), q.x(), q.y(), q.z()};}

struct ImuC {std::string name; IMU::Parameters p;};
struct GpsC {std::string name; GPS::Parameters p;};
struct CamC {std::string name; Camera::Parameters p; int channels{1};};
struct Cfg
{
  std::map<std::string, rclcpp::ParameterValue> table;
  EKF::Parameters ekf;
  unsigned int level{0};
  std::vector<ImuC> imus;
  std::vector<GpsC> gps;
  std::vector<CamC> cams;
  std::map<std::string, FeatureTracker::Parameters> trackers;
  std::map<std::string, FiducialTracker::Parameters> boards;
};

// Sets a parameter, or leaves its default in place
struct Setter
{
  Gen & g;
  std::map<std::string, rclcpp::ParameterValue> & table;
  double omit;
  int omitted{0};
  void Put(const std::string & key, double & t, double v) {t = v; table[key] = v;}
  void Put(const std::string & key, bool & t, bool v) {t = v; table[key] = v;}
  void Put(const std::string & key, unsigned int & t, unsigned int v) {t = v; table[key] = int(v);}
  void Put(const std::string & key, int & t, int v) {t = v; table[key] = v;}
  void Put(const std::string & key, Vector3d & t, const Vector3d & v) {t = v; table[key] = Std(Eigen::VectorXd(v));}
  void Put(const std::string & key, Eigen::VectorXd & t, const Eigen::VectorXd & v) {t = v; table[key] = Std(v);}
  void Put(const std::string & key, std::string & t, const std::string & v) {t = v; table[key] = v;}
  void Put(const std::string & key, Quaterniond & t, const Quaterniond & v)
  {
    // What is read gets normalized
    t = Quaterniond(v.w(), v.x(), v.y(), v.z()).normalized();
    table[key] = Std(v);
  }
  template<class E> void Choose(const std::string & key, E & t, int v) {t = static_cast<E>(v); table[key] = v;}
  template<class T, class U> void Maybe(const std::string & key, T & t, const U & v)
  {
    if (g.Coin(omit)) {++omitted; return;}
    Put(key, t, v);
  }
};

static Vector3d Any(Gen & g, double a) {return Vector3d(g.Sym(a), g.Sym(a), g.Sym(a));}
static std::string Name(Gen & g, const std::string & kind, int i)
{
  static const L base{"a", "front", "unit_1", "X9", "left"};
  return g.Pick(base) + "_" + kind + std::to_string(i);
}
static Eigen::VectorXd Variances(Gen & g, int n, double lo, double hi)
{
  Eigen::VectorXd v(n);
  for (int i = 0; i < n; ++i) {v(i) = g.Log(lo, hi);}
  return v;
}

// A rich configuration is one whose tracked features correct the filter
static Cfg Config(Gen & g, Case & c, bool rich)
{
  Cfg f;
  Setter s{g, f.table, g.Coin() ? 0.0 : 0.25};
  auto & e = f.ekf;
  e.augmenting_delta_time = e.augmenting_pos_error = e.augmenting_ang_error = 0;
  f.level = g.Coin(0.7) ? 0 : g.UInt(1, 4);
  f.table["debug_log_level"] = int(f.level);
  double rate = g.Coin(0.1) ? 0.0 : g.Real(20.0, 200.0);
  s.Put("data_log_rate", e.data_log_rate, rate);
  s.Choose("augmenting_type", e.augmenting_type, rich && g.Coin(0.7) ? 1 : g.Int(0, 4));
  s.Put("augmenting_delta_time", e.augmenting_delta_time, g.Real(0.05, 0.6));
  s.Put("augmenting_pos_error", e.augmenting_pos_error, g.Log(0.001, 1.0));
  s.Put("augmenting_ang_error", e.augmenting_ang_error, g.Log(0.001, 1.0));
  e.process_noise.resize(g_body_state_size);
  const char * noise[] = {"pos", "vel", "acc", "ang_pos", "ang_vel", "ang_acc"};
  for (int i = 0; i < 6; ++i) {
    double v = 1e-2;
    s.Maybe(std::string("process_noise.") + noise[i], v, g.Log(1e-4, 1.0));
    e.process_noise.segment<3>(3 * i).setConstant(v);
  }
  e.pos_b_in_l = e.pos_e_in_g = Vector3d::Zero();
  e.ang_b_to_l = Quaterniond::Identity();
  e.ang_l_to_e = 0.0;
  s.Maybe("pos_b_in_l", e.pos_b_in_l, Any(g, 5.0));
  s.Maybe("ang_b_to_l", e.ang_b_to_l, gen::Quat(g));
  s.Maybe("pos_e_in_g", e.pos_e_in_g, Vector3d(g.Sym(70.0), g.Sym(179.0), g.Sym(500.0)));
  s.Maybe("ang_l_to_e", e.ang_l_to_e, g.Sym(3.0));
  e.gps_init_type = GpsInitType::CONSTANT;
  if (g.Coin(0.4)) {s.Choose("gps_init_type", e.gps_init_type, g.Int(0, 2));}
  s.Put("gps_init_baseline_dist", e.gps_init_baseline_dist, g.Log(0.1, 100.0));
  s.Put("gps_init_pos_thresh", e.gps_init_pos_thresh, g.Log(0.1, 10.0));
  s.Put("gps_init_ang_thresh", e.gps_init_ang_thresh, g.Log(0.01, 3.0));
  s.Put("motion_detection_chi_squared", e.motion_detection_chi_squared, rich ? 0.01 : g.Log(0.01, 10.0));
  s.Put("imu_noise_scale_factor", e.imu_noise_scale_factor, g.Log(1.0, 1000.0));
  e.use_root_covariance = true;
  e.use_first_estimate_jacobian = false;
  s.Maybe("use_root_covariance", e.use_root_covariance, g.Coin());
  s.Maybe("use_first_estimate_jacobian", e.use_first_estimate_jacobian, g.Coin());

  auto sensor = [&](const std::string & y, Sensor::Parameters & p, const std::string & name) {
      p.name = name;
      s.Put(y + ".topic", p.topic, "/" + name + g.Pick(L{"", "/data", "/raw"}));
      p.rate = 1.0;
      s.Maybe(y + ".rate", p.rate, g.Real(5.0, 200.0));
      double r = g.Coin(0.1) ? 0.0 : g.Real(5.0, 200.0);
      s.Put(y + ".data_log_rate", p.data_log_rate, r);
    };
  L list;
  int n = rich ? 1 : g.Int(0, 2);
  for (int i = 0; i < n; ++i) {
    ImuC m;
    m.name = Name(g, "imu", i);
    std::string y = "imu." + m.name;
    auto & p = m.p;
    sensor(y, p, m.name);
    p.is_extrinsic = p.is_intrinsic = false;
    s.Maybe(y + ".is_extrinsic", p.is_extrinsic, g.Coin());
    s.Maybe(y + ".is_intrinsic", p.is_intrinsic, g.Coin());
    s.Put(y + ".variance", p.variance, Variances(g, 12, 1e-4, 1e-1));
    p.pos_i_in_b = p.acc_bias = p.omg_bias = Vector3d::Zero();
    p.ang_i_to_b = Quaterniond::Identity();
    s.Maybe(y + ".pos_i_in_b", p.pos_i_in_b, Any(g, 0.5));
    s.Maybe(y + ".ang_i_to_b", p.ang_i_to_b, gen::Quat(g));
    s.Maybe(y + ".acc_bias", p.acc_bias, Any(g, 0.1));
    s.Maybe(y + ".omg_bias", p.omg_bias, Any(g, 0.1));
    p.pos_stability = p.ang_stability = p.acc_bias_stability = p.omg_bias_stability = 1e-9;
    s.Maybe(y + ".pos_stability", p.pos_stability, g.Log(1e-6, 1e-2));
    s.Maybe(y + ".ang_stability", p.ang_stability, g.Log(1e-6, 1e-2));
    s.Maybe(y + ".acc_bias_stability", p.acc_bias_stability, g.Log(1e-6, 1e-2));
    s.Maybe(y + ".omg_bias_stability", p.omg_bias_stability, g.Log(1e-6, 1e-2));
    f.imus.push_back(m);
    list.push_back(m.name);
  }
  f.table["imu_list"] = list;
  list.clear();

  n = !rich && g.Coin(0.3) ? 0 : g.Int(1, 2);
  for (int i = 0; i < n; ++i) {
    FeatureTracker::Parameters p;
    p.name = Name(g, "trk", i);
    std::string y = "tracker." + p.name;
    int detector = g.Pick(std::vector<int>{0, 1, 2, 4, 5});
    s.Choose(y + ".feature_detector", p.detector, detector);
    s.Choose(y + ".descriptor_extractor", p.descriptor, detector == 5 ? 1 : 0);
    s.Choose(y + ".descriptor_matcher", p.matcher, g.Int(0, 1));
    p.threshold = 20;
    s.Maybe(y + ".detector_threshold", p.threshold, g.Int(5, 40));
    p.px_error = 1.0;
    p.min_track_length = 2;
    p.max_track_length = 20;
    p.min_feat_dist = 1.0;
    p.down_sample = false;
    s.Maybe(y + ".pixel_error", p.px_error, g.Log(0.1, 10.0));
    s.Maybe(y + ".min_track_length", p.min_track_length, g.UInt(2, 4));
    s.Maybe(y + ".max_track_length", p.max_track_length, g.Coin() ? g.UInt(3, 6) : g.UInt(20, 30));
    s.Maybe(y + ".min_feature_distance", p.min_feat_dist, rich ? g.Log(0.001, 0.1) : g.Log(0.1, 10.0));
    s.Maybe(y + ".down_sample", p.down_sample, g.Coin(0.4));
    p.down_sample_height = 480;
    p.down_sample_width = 640;
    s.Maybe(y + ".down_sample_height", p.down_sample_height, 2 * g.Int(70, 100));
    s.Maybe(y + ".down_sample_width", p.down_sample_width, 2 * g.Int(90, 140));
    f.trackers[p.name] = p;
    list.push_back(p.name);
  }
  L trackers = list;
  f.table["tracker_list"] = list;
  if (list.empty()) {e.augmenting_type = AugmentationType::NONE;}
  list.clear();

  n = g.Int(0, 2);
  for (int i = 0; i < n; ++i) {
    FiducialTracker::Parameters p;
    p.name = Name(g, "fid", i);
    std::string y = "fiducial." + p.name;
    s.Choose(y + ".fiducial_type", p.detector_type, g.Int(0, 1));
    s.Put(y + ".squares_x", p.squares_x, g.UInt(3, 5));
    s.Put(y + ".squares_y", p.squares_y, g.UInt(3, 5));
    s.Put(y + ".square_length", p.square_length, g.Real(0.03, 0.3));
    s.Put(y + ".marker_length", p.marker_length, p.square_length * (p.detector_type == FiducialType::CHARUCO_BOARD ? g.Real(0.6, 0.8) : g.Real(0.2, 0.5)));
    s.Put(y + ".id", p.id, 3 * static_cast<unsigned int>(i) + g.UInt(0, 2));
    p.is_extrinsic = false;
    p.pos_f_in_l = Vector3d::Zero();
    p.ang_f_to_l = Quaterniond::Identity();
    s.Maybe(y + ".pos_f_in_l", p.pos_f_in_l, Any(g, 2.0));
    s.Maybe(y + ".ang_f_to_l", p.ang_f_to_l, gen::Quat(g));
    s.Put(y + ".variance", p.variance, Variances(g, 6, 1e-3, 1e-1));
    p.min_track_length = 2;
    p.max_track_length = 20;
    s.Maybe(y + ".max_track_length", p.max_track_length, g.UInt(1, 30));
    s.Maybe(y + ".is_extrinsic", p.is_extrinsic, g.Coin());
    f.boards[p.name] = p;
    list.push_back(p.name);
  }
  L boards = list;
  f.table["fiducial_list"] = list;
  list.clear();

  n = rich ? 1 : (g.Coin(0.3) ? 0 : g.Int(1, 2));
  std::set<std::string> used;
  for (int i = 0; i < n; ++i) {
    CamC m;
    m.name = Name(g, "cam", i);
    std::string y = "camera." + m.name;
    auto & p = m.p;
    sensor(y, p, m.name);
    p.is_extrinsic = false;
    s.Maybe(y + ".is_extrinsic", p.is_extrinsic, g.Coin());
    s.Put(y + ".variance", p.variance, Variances(g, 6, 1e-4, 1e-1));
    p.pos_c_in_b = Vector3d::Zero();
    p.ang_c_to_b = Quaterniond::Identity();
    s.Maybe(y + ".pos_c_in_b", p.pos_c_in_b, Any(g, 0.5));
    s.Maybe(y + ".ang_c_to_b", p.ang_c_to_b, gen::Quat(g));
    p.pos_stability = p.ang_stability = 1e-9;
    s.Maybe(y + ".pos_stability", p.pos_stability, g.Log(1e-6, 1e-2));
    s.Maybe(y + ".ang_stability", p.ang_stability, g.Log(1e-6, 1e-2));
    if (!trackers.empty() && (rich || g.Coin(0.8))) {s.Put(y + ".tracker", p.tracker, g.Pick(trackers));}
    if (!boards.empty() && g.Coin(0.7)) {
      // one camera for each board
      std::string b = g.Pick(boards);
      if (used.insert(b).second) {s.Put(y + ".fiducial", p.fiducial, b);}
    }
    auto & q = p.intrinsics;
    y += ".intrinsics";
    s.Put(y + ".f_x", q.f_x, g.Real(0.001, 0.003));
    s.Put(y + ".f_y", q.f_y, g.Real(0.001, 0.003));
    q.k_1 = q.k_2 = q.p_1 = q.p_2 = 0.0;
    s.Maybe(y + ".k_1", q.k_1, g.Coin() ? 0.0 : g.Sym(0.05));
    s.Maybe(y + ".k_2", q.k_2, g.Coin() ? 0.0 : g.Sym(0.01));
    s.Maybe(y + ".p_1", q.p_1, g.Coin() ? 0.0 : g.Sym(0.005));
    s.Maybe(y + ".p_2", q.p_2, g.Coin() ? 0.0 : g.Sym(0.005));
    s.Put(y + ".width", q.width, double(2 * g.Int(120, 180)));
    s.Put(y + ".height", q.height, double(2 * g.Int(90, 130)));
    q.pixel_size = 5e-6;
    s.Maybe(y + ".pixel_size", q.pixel_size, g.Real(4e-6, 1e-5));
    if (g.Coin(0.3)) {m.channels = 3;}
    f.cams.push_back(m);
    list.push_back(m.name);
  }
  f.table["camera_list"] = list;
  list.clear();

  n = g.Int(0, 2);
  for (int i = 0; i < n; ++i) {
    GpsC m;
    m.name = Name(g, "gps", i);
    std::string y = "gps." + m.name;
    auto & p = m.p;
    sensor(y, p, m.name);
    p.is_extrinsic = false;
    s.Maybe(y + ".is_extrinsic", p.is_extrinsic, g.Coin());
    Eigen::VectorXd variance;
    s.Put(y + ".variance", variance, Variances(g, 3, 1e-3, 1.0));
    p.variance = variance;
    p.pos_a_in_b = Vector3d::Zero();
    s.Maybe(y + ".pos_a_in_b", p.pos_a_in_b, Any(g, 1.0));
    p.pos_stability = 1e-9;
    s.Maybe(y + ".pos_stability", p.pos_stability, g.Log(1e-6, 1e-2));
    f.gps.push_back(m);
    list.push_back(m.name);
  }
  f.table["gps_list"] = list;
  c.note << f.imus.size() << " IMUs, " << f.cams.size() << " cameras, " << f.gps.size() << " GPS, " << trackers.size() <<
    " trackers, " << boards.size() << " boards, " << s.omitted << " parameters omitted; ";
  if (s.omitted) {c.Label("parameters omitted");}
  return f;
}

// A message for one of the sensors
struct Msg
{
  int kind;        // 0 IMU, 1 camera, 2 GPS
  size_t sensor;
  int32_t sec;
  uint32_t nsec;
  Vector3d a, w;
  Eigen::Matrix3d ca, cw;
  cv::Mat image;
  std::string encoding;
  unsigned int stray{0};
  double Time() const {return sec + nsec * 1e-9;}
};

static Eigen::Matrix3d AnyCov(Gen & g, double lo, double hi)
{
  Eigen::Matrix3d m = Eigen::Matrix3d::Zero();
  for (int i = 0; i < 3; ++i) {m(i, i) = g.Log(lo, hi);}
  if (g.Coin(0.3)) {
    Eigen::Matrix3d r = gen::Quat(g).toRotationMatrix();
    m = (r * m * r.transpose()).eval();
    m = (0.5 * (m + m.transpose())).eval();
  }
  return m;
}

static cv::Mat Board(const FiducialTracker::Parameters & p)
{
  cv::Mat tex;
  auto dict = cv::aruco::getPredefinedDictionary(static_cast<cv::aruco::PREDEFINED_DICTIONARY_NAME>(p.predefined_dict));
  int px = 30;
  cv::Size size(px * p.squares_x, px * p.squares_y);
  if (p.detector_type == FiducialType::CHARUCO_BOARD) {
    cv::aruco::CharucoBoard::create(p.squares_x, p.squares_y, p.square_length, p.marker_length, dict)->draw(size, tex, 0, 1);
  } else {
    cv::aruco::GridBoard::create(p.squares_x, p.squares_y, p.square_length, p.marker_length, dict)->draw(size, tex, 4, 1);
  }
  return tex;
}

// What a camera looks at: blocks of grey, and the board
static cv::Mat Scene(Gen & g, const CamC & m, const Cfg & f)
{
  int w = int(m.p.intrinsics.width) + 60, h = int(m.p.intrinsics.height) + 60;
  cv::Mat s(h, w, CV_8UC1, cv::Scalar(128));
  cv::RNG r(g.UInt(1, 1000000));
  for (int i = 0; i < 120; ++i) {
    cv::Point a(r.uniform(0, w), r.uniform(0, h));
    cv::rectangle(s, a, a + cv::Point(r.uniform(4, 30), r.uniform(4, 30)), cv::Scalar(r.uniform(0, 256)), cv::FILLED);
  }
  if (!m.p.fiducial.empty()) {
    cv::Mat b = Board(f.boards.at(m.p.fiducial));
    cv::Rect at(cv::Point(60, 60), b.size());
    cv::rectangle(s, at + cv::Point(-8, -8) + cv::Size(16, 16), cv::Scalar(255), cv::FILLED);
    b.copyTo(s(at));
  }
  return s;
}

static std::vector<Msg> Stream(Gen & g, Case & c, const Cfg & f, bool rich)
{
  std::vector<Msg> out;
  struct S {int kind; size_t sensor;};
  std::vector<S> all;
  for (size_t i = 0; i < f.imus.size(); ++i) {all.push_back({0, i});}
  for (size_t i = 0; i < f.cams.size(); ++i) {all.push_back({1, i});}
  for (size_t i = 0; i < f.gps.size(); ++i) {all.push_back({2, i});}
  if (all.empty()) {return out;}
  std::vector<cv::Mat> scene;
  std::vector<Eigen::Vector2d> at, by;
  for (auto & m : f.cams) {
    scene.push_back(Scene(g, m, f));
    at.push_back(Eigen::Vector2d(g.Real(0, 60), g.Real(0, 60)));
    by.push_back(Eigen::Vector2d(g.Sym(6), g.Sym(6)));
  }
  int32_t sec = g.Coin() ? 0 : (g.Coin() ? 1700000000 : int32_t(g.Int(1, 2000000000)));
  int64_t ns = g.Int(0, 999999999);
  // Many images, for tracks of features to end
  int n = rich ? g.Int(15, 40) : g.Int(3, 30), images = 0, most = rich ? 20 : 8, rest = rich ? 2 : g.Coin(0.7) ? g.Int(1, 8) : 0;
  Vector3d enu(0, 0, 0), drift = rich ? Any(g, 0.5) : Vector3d(0, 0, 0), push = rich ? Any(g, 4.0) : Vector3d(0, 0, 0);
  for (int i = 0; i < n; ++i) {
    Msg m;
    S s = g.Pick(all);
    // At rest first, for gravity to be known
    if (rich && i < rest) {s = {0, 0};} else if (rich && g.Coin(0.3)) {s = {1, 0};}
    if (s.kind == 1 && images >= most) {s = all[0];}
    if (s.kind == 1 && images >= most) {continue;}
    m.kind = s.kind;
    m.sensor = s.sensor;
    // sometimes late or at the same time
    int64_t step = g.Coin(0.1) ? 0 : (g.Coin(0.05) ? -int64_t(g.Int(1, 50000000)) : g.Int(1, 100000000));
    if (sec + (ns + step) / 1e9 < 0 || (step < 0 && ns + step < 0)) {step = 0;}
    ns += step;
    m.sec = sec + int32_t(ns / 1000000000);
    m.nsec = uint32_t(ns % 1000000000);
    if (s.kind == 0) {
      auto & p = f.imus[s.sensor].p;
      Quaterniond q = f.ekf.ang_b_to_l * p.ang_i_to_b;
      m.a = q.inverse() * Vector3d(0, 0, 9.80665) + p.acc_bias;
      m.w = p.omg_bias;
      if (i >= rest) {
        m.a += rich ? Vector3d(push + Any(g, 0.2)) : Any(g, 2.0);
        m.w += Any(g, rich ? 0.05 : 0.5);
      }
      m.ca = AnyCov(g, 1e-5, 1e-1);
      m.cw = AnyCov(g, 1e-6, 1e-2);
    } else if (s.kind == 1) {
      ++images;
      auto & k = f.cams[s.sensor].p.intrinsics;
      auto & x = at[s.sensor];
      x += by[s.sensor] + Eigen::Vector2d(g.Sym(2), g.Sym(2));
      for (int d = 0; d < 2; ++d) {
        if (x[d] < 0 || x[d] > 60) {by[s.sensor][d] *= -1; x[d] = std::min(60.0, std::max(0.0, x[d]));}
      }
      scene[s.sensor](cv::Rect(int(x[0]), int(x[1]), int(k.width), int(k.height))).copyTo(m.image);
      if (g.Coin(0.04)) {m.image = cv::Mat(int(k.height), int(k.width), CV_8UC1, cv::Scalar(90));}
      m.encoding = g.Pick(L{"mono8", "8UC1"});
      if (f.cams[s.sensor].channels == 3) {m.encoding = g.Pick(L{"bgr8", "rgb8", "bgra8", "rgba8"});}
    } else {
      enu += rich ? Vector3d(drift + Any(g, 0.05)) : Any(g, 3.0);
      m.a = enu_to_lla(Vector3d(enu), f.ekf.pos_e_in_g);
      m.ca = AnyCov(g, 1e-2, 10.0);
    }
    if (i > rest && g.Coin(0.03)) {m.stray = g.UInt(100, 200); c.Label("message of no sensor");}
    out.push_back(m);
  }
  c.note << out.size() << " messages (" << images << " images), from " << (out.empty() ? 0.0 : out[0].Time()) << " s; ";
  return out;
}

static sensor_msgs::msg::Image::SharedPtr RosImage(const Msg & m)
{
  cv::Mat i = m.image;
  int n = cv_bridge::ChannelsOf(m.encoding);
  if (n == 3) {cv::cvtColor(m.image, i, cv::COLOR_GRAY2BGR);}
  if (n == 4) {cv::cvtColor(m.image, i, cv::COLOR_GRAY2BGRA);}
  auto r = cv_bridge::CvImage(std_msgs::msg::Header(), m.encoding, i).toImageMsg();
  r->header.stamp.sec = m.sec;
  r->header.stamp.nanosec = m.nsec;
  return r;
}
static std::array<double, 9> Rows(const Eigen::Matrix3d & m)
{
  std::array<double, 9> a;
  for (int i = 0; i < 9; ++i) {a[i] = m(i / 3, i % 3);}
  return a;
}
static sensor_msgs::msg::Imu::SharedPtr RosImu(const Msg & m)
{
  auto r = std::make_shared<sensor_msgs::msg::Imu>();
  r->header.stamp.sec = m.sec;
  r->header.stamp.nanosec = m.nsec;
  r->linear_acceleration.x = m.a.x();
  r->linear_acceleration.y = m.a.y();
  r->linear_acceleration.z = m.a.z();
  r->angular_velocity.x = m.w.x();
  r->angular_velocity.y = m.w.y();
  r->angular_velocity.z = m.w.z();
  r->linear_acceleration_covariance = Rows(m.ca);
  r->angular_velocity_covariance = Rows(m.cw);
  return r;
}
static sensor_msgs::msg::NavSatFix::SharedPtr RosFix(const Msg & m)
{
  auto r = std::make_shared<sensor_msgs::msg::NavSatFix>();
  r->header.stamp.sec = m.sec;
  r->header.stamp.nanosec = m.nsec;
  r->latitude = m.a.x();
  r->longitude = m.a.y();
  r->altitude = m.a.z();
  r->position_covariance = Rows(m.ca);
  r->position_covariance_type = sensor_msgs::msg::NavSatFix::COVARIANCE_TYPE_KNOWN;
  return r;
}

// What a run shows: the body state after each message, and the images given out
static void Show(std::ostream & o, const Eigen::VectorXd & v)
{
  o.precision(17);
  for (int i = 0; i < v.size(); ++i) {o << (i ? "," : "") << v(i);}
  o << "\n";
}
static void Show(std::ostream & o, const std::string & camera, int w, int h, size_t step, const uint8_t * d)
{
  uint64_t sum = 1469598103934665603ull;
  for (int i = 0; i < h; ++i) {
    for (int j = 0; j < 3 * w; ++j) {sum = (sum ^ d[i * step + j]) * 1099511628211ull;}
  }
  o << "image " << camera << " " << w << "x" << h << " " << sum << "\n";
}

template<class M> static std::shared_ptr<rclcpp::Subscription<M>> Find(const std::string & topic)
{
  std::shared_ptr<rclcpp::Subscription<M>> out;
  for (auto & w : rclcpp::TheWorld().subscriptions) {
    auto s = std::dynamic_pointer_cast<rclcpp::Subscription<M>>(w.lock());
    if (s && s->topic == topic) {
      if (out) {throw std::runtime_error("two subscriptions of " + topic);}
      out = s;
    }
  }
  if (!out) {throw std::runtime_error("no subscription of " + topic);}
  return out;
}
template<class M> static std::vector<std::shared_ptr<rclcpp::Publisher<M>>> Publishers(const std::string & name)
{
  std::vector<std::shared_ptr<rclcpp::Publisher<M>>> out;
  for (auto & w : rclcpp::TheWorld().publishers) {
    auto s = std::dynamic_pointer_cast<rclcpp::Publisher<M>>(w.lock());
    if (s && (name.empty() || s->topic == "~/" + name)) {out.push_back(s);}
  }
  return out;
}

static void InNode(const Cfg & f, const std::vector<Msg> & stream, const std::string & dir, std::ostream & o)
{
  auto & w = rclcpp::TheWorld();
  w.overrides = f.table;
  w.overrides["log_directory"] = dir;
  bool spun = false;
  w.spin = [&](rclcpp::Node::SharedPtr n) {
      auto node = std::dynamic_pointer_cast<EkfCalNode>(n);
      spun = true;
      for (auto & m : stream) {
        if (m.stray) {
          // From a sensor there is none of
          if (m.kind == 0) {node->ImuCallback(RosImu(m), m.stray);}
          if (m.kind == 1) {node->CameraCallback(RosImage(m), m.stray);}
          if (m.kind == 2) {node->GpsCallback(RosFix(m), m.stray);}
        } else if (m.kind == 0) {
          Find<sensor_msgs::msg::Imu>(f.imus[m.sensor].p.topic)->call(RosImu(m));
        } else if (m.kind == 2) {
          Find<sensor_msgs::msg::NavSatFix>(f.gps[m.sensor].p.topic)->call(RosFix(m));
        } else {
          auto & cam = f.cams[m.sensor];
          auto p = Publishers<sensor_msgs::msg::Image>(cam.name);
          if (p.size() != 1) {throw std::runtime_error("no publisher of the images of " + cam.name);}
          size_t before = p[0]->sent.size();
          Find<sensor_msgs::msg::Image>(cam.p.topic)->call(RosImage(m));
          bool tracked = !cam.p.tracker.empty() || !cam.p.fiducial.empty();
          if (tracked) {
            if (p[0]->sent.size() != before + 1) {throw std::runtime_error("image of " + cam.name + " not given out");}
            auto & i = p[0]->sent.back();
            Show(o, cam.name, i.width, i.height, i.step, i.data.data());
          }
        }
        // The state is published by a timer
        for (auto & t : w.timers) {if (auto p = t.lock()) {p->call();}}
        auto p = Publishers<std_msgs::msg::Float64MultiArray>("BodyState");
        if (p.size() != 1 || p[0]->sent.empty()) {throw std::runtime_error("no body state published");}
        auto & d = p[0]->sent.back().data;
        Show(o, Eigen::Map<const Eigen::VectorXd>(d.data(), d.size()));
      }
    };
  char name[] = "ekf_cal_node";
  char * argv[] = {name, nullptr};
  int r = ros_main(1, argv);
  o << "exit " << r << " spun " << spun << "\n";
  for (auto & l : w.log) {o << "log " << l.severity << " " << l.text << "\n";}
}

// The same, put together by hand
static void ByHand(const Cfg & f, const std::vector<Msg> & stream, const std::string & dir, std::ostream & o)
{
  auto log = Silent();
  EKF::Parameters ep = f.ekf;
  ep.debug_logger = log;
  ep.log_directory = dir;
  auto ekf = std::make_shared<EKF>(ep);
  ekf->m_state.body_state.pos_b_in_l = f.ekf.pos_b_in_l;
  ekf->m_state.body_state.ang_b_to_l = f.ekf.ang_b_to_l;
  auto common = [&](auto & p) {
      p.ekf = ekf;
      p.logger = log;
      p.log_directory = dir;
    };
  std::vector<std::shared_ptr<IMU>> imus;
  std::vector<std::shared_ptr<GPS>> gps;
  std::vector<std::shared_ptr<Camera>> cams;
  for (auto m : f.imus) {
    common(m.p);
    imus.push_back(std::make_shared<IMU>(m.p));
  }
  unsigned int length = 0;
  for (auto & t : f.trackers) {length = std::max(length, t.second.max_track_length);}
  for (auto & t : f.boards) {length = std::max(length, t.second.max_track_length);}
  ekf->SetMaxTrackLength(length);
  for (auto m : f.cams) {
    common(m.p);
    auto cam = std::make_shared<Camera>(m.p);
    auto tracker = [&](auto & p) {
        common(p);
        p.camera_id = cam->GetId();
        p.intrinsics = m.p.intrinsics;
        p.is_cam_extrinsic = m.p.is_extrinsic;
        p.data_log_rate = m.p.data_log_rate;
      };
    if (!m.p.tracker.empty()) {
      auto p = f.trackers.at(m.p.tracker);
      tracker(p);
      cam->AddTracker(std::make_shared<FeatureTracker>(p));
    }
    if (!m.p.fiducial.empty()) {
      auto p = f.boards.at(m.p.fiducial);
      tracker(p);
      cam->AddFiducial(std::make_shared<FiducialTracker>(p));
    }
    cams.push_back(cam);
  }
  for (auto m : f.gps) {
    common(m.p);
    gps.push_back(std::make_shared<GPS>(m.p));
  }
  for (auto & m : stream) {
    if (m.stray) {
    } else if (m.kind == 0) {
      ImuMessage x;
      x.time = m.Time();
      x.sensor_id = imus[m.sensor]->GetId();
      x.sensor_type = SensorType::IMU;
      x.acceleration = m.a;
      x.angular_rate = m.w;
      x.acceleration_covariance = m.ca;
      x.angular_rate_covariance = m.cw;
      imus[m.sensor]->Callback(x);
    } else if (m.kind == 2) {
      GpsMessage x;
      x.time = m.Time();
      x.sensor_id = gps[m.sensor]->GetId();
      x.sensor_type = SensorType::GPS;
      x.gps_lla = m.a;
      x.pos_covariance = m.ca;
      gps[m.sensor]->Callback(x);
    } else {
      cv::Mat copy = m.image.clone();
      CameraMessage x(copy);
      x.time = m.Time();
      x.sensor_id = cams[m.sensor]->GetId();
      x.sensor_type = SensorType::Camera;
      cams[m.sensor]->Callback(x);
      auto & p = f.cams[m.sensor].p;
      if (!p.tracker.empty() || !p.fiducial.empty()) {
        auto & i = cams[m.sensor]->m_out_img;
        Show(o, f.cams[m.sensor].name, i.cols, i.rows, i.step, i.data);
      }
    }
    Show(o, ekf->m_state.body_state.ToVector());
  }
}

// In a process of its own (sensors are numbered from one). The reason it failed, if it did
static std::string Apart(const std::string & dir, const std::string & out, std::function<void(std::ostream &)> run)
{
  fflush(nullptr);
  mkdir(dir.c_str(), 0700);
  pid_t p = fork();
  if (p == 0) {
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    dup2(n, 2);
    int code = 0;
    {
      std::ofstream o(out);
      try {
        run(o);
      } catch (const std::exception & e) {
        o << "\nthrew " << e.what() << "\n";
        code = 3;
      }
    }
    _exit(code);
  }
  int status = 0;
  waitpid(p, &status, 0);
  if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {return "";}
  auto l = Lines(out);
  if (WIFSIGNALED(status)) {return "signal " + std::to_string(WTERMSIG(status));}
  std::string why;
  for (auto & i : l) {if (i.compare(0, 6, "threw ") == 0 || !why.empty()) {why += " " + i;}}
  return "exit status " + std::to_string(WEXITSTATUS(status)) + why;
}
static void Remove(const std::string & dir)
{
  for (auto & n : Files(dir)) {unlink((dir + n).c_str());}
  rmdir(dir.c_str());
}

static void AsConfigured(Gen & g, Case & c)
{
  bool rich = g.Coin(0.3);
  Cfg f = Config(g, c, rich);
  auto stream = Stream(g, c, f, rich);
  Scratch s;
  std::string a = s.dir + "node/", b = s.dir + "hand/", oa = s.dir + "node.txt", ob = s.dir + "hand.txt";
  struct Clean {std::string x, y; ~Clean() {Remove(x); Remove(y);}} clean{a, b};
  std::string hand = Apart(b, ob, [&](std::ostream & o) {ByHand(f, stream, b, o);});
  if (!hand.empty()) {mkdir(a.c_str(), 0700); c.Skip();}
  std::string node = Apart(a, oa, [&](std::ostream & o) {InNode(f, stream, a, o);});
  c.Check(node.empty(), "node: " + node);
  auto x = Lines(oa), y = Lines(ob);
  size_t n = 0, states = 0, images = 0;
  for (; n < y.size(); ++n) {
    c.Check(n < x.size(), "node stopped early");
    if (y[n].compare(0, 6, "image ") == 0) {
      ++images;
      c.Check(x[n] == y[n], "after message " + std::to_string(states) + ": " + x[n] + " want " + y[n]);
      continue;
    }
    auto v = Split(x[n]), w = Split(y[n]);
    std::string at = "body state after message " + std::to_string(states) + ": ";
    c.Check(v.size() == w.size(), at + x[n] + " want " + y[n]);
    double scale = 1;
    for (auto & k : w) {scale = std::max(scale, std::abs(atof(k.c_str())));}
    if (!std::isfinite(scale)) {c.Skip();}
    for (size_t k = 0; k < w.size(); ++k) {
      double m = atof(v[k].c_str()), d = atof(w[k].c_str());
      if (!std::isfinite(d)) {c.Skip();}
      c.Check(std::abs(m - d) <= 1e-5 * scale, at + "element " + std::to_string(k) + " " + v[k] + " want " + w[k]);
    }
    ++states;
  }
  c.Check(n < x.size() && x[n] == "exit 0 spun 1", "main program");
  for (++n; n < x.size(); ++n) {
    // Nothing above the debug level
    int severity = atoi(x[n].c_str() + 4);
    if (x[n].compare(0, 4, "log ") == 0) {c.Check(5 - severity <= int(f.level), "debug level " + std::to_string(f.level) + ", logged: " + x[n]);}
  }
  size_t rows = 0;
  std::string diff = Difference(a, b, false, &rows);
  c.Check(diff.empty(), diff);
  c.note << states << " states, " << images << " images, " << rows << " log rows";
  if (images) {c.Label("with images");}
  for (auto & m : f.cams) {if (m.channels == 3 && images) {c.Label("colour camera");}}
  if (!f.gps.empty()) {c.Label("with GPS");}
  if (!f.imus.empty()) {c.Label("with IMU");}
  for (auto & n : Files(b)) {
    auto l = Lines(b + n);
    if (l.size() > 1) {c.Label("logged " + n.substr(0, n.find_last_of("_0123456789.") == std::string::npos ? n.size() : n.find_first_of("0123456789.")));}
  }
  if (rows > 3 && states > 3) {c.NonTrivial();}
}

// What the node prints is what is logged at or above the level
static void Messages(Gen & g, Case & c)
{
  auto & lines = rclcpp::TheWorld().log;
  unsigned int level = g.UInt(0, 4);
  std::shared_ptr<DebugLogger> log;
  if (g.Coin()) {log = std::make_shared<DebugLogger>(level, "");} else {log = std::make_shared<DebugLogger>(static_cast<LogLevel>(level), "");}
  const char * name[] = {"FATAL", "ERROR", "WARN", "INFO", "DEBUG"};
  c.note << "level " << level;
  int n = g.Int(1, 20);
  for (int i = 0; i < n; ++i) {
    lines.clear();
    if (g.Coin(0.2)) {
      level = g.UInt(0, 4);
      c.note << "; set " << level;
      if (g.Coin()) {log->SetLogLevel(level);} else {log->SetLogLevel(static_cast<LogLevel>(level));}
      for (auto & l : lines) {
        for (unsigned int k = 0; k < 5; ++k) {
          c.Check((l.text.find(name[k]) != std::string::npos) == (k == level), "level " + std::to_string(level) + " announced: " + l.text);
        }
      }
      continue;
    }
    unsigned int at = g.UInt(0, 4);
    std::string text;
    int parts = g.Int(0, 4);
    for (int k = 0; k < parts; ++k) {
      text += g.Pick(L{"file not found: ", "100%", "%s", "%n", "/home/%d/log", "50% of %5.3f", "a b", "\\", "\"", "{}", "IMU 1", "%%"});
    }
    c.note << "; " << at << " '" << text << "'";
    log->Log(static_cast<LogLevel>(at), text);
    std::string got;
    for (auto & l : lines) {got += " " + std::to_string(l.severity) + " '" + l.text + "'";}
    if (at > level) {
      c.Check(lines.empty(), "printed at level " + std::to_string(level) + ":" + got);
      continue;
    }
    c.Check(lines.size() == 1 && lines[0].severity == 5 - static_cast<int>(at) && lines[0].text == text, "logged " + std::to_string(at) + " '" + text + "', printed:" + got);
    c.NonTrivial();
  }
  lines.clear();
}

// YAML to ROS parameters, as the ROS parameter parser types them
static void Flatten(const YAML::Node & y, const std::string & key, std::map<std::string, rclcpp::ParameterValue> & out)
{
  static const std::regex integer("[-+]?[0-9]+"), real("[-+]?([0-9]+[.]?[0-9]*|[.][0-9]+)([eE][-+]?[0-9]+)?");
  auto type = [&](const YAML::Node & n) {
      if (n.Tag() == "!") {return 's';}
      std::string s = n.Scalar();
      if (s == "true" || s == "false") {return 'b';}
      if (std::regex_match(s, integer)) {return 'i';}
      if (std::regex_match(s, real)) {return 'd';}
      return 's';
    };
  if (y.IsMap()) {
    for (auto i : y) {Flatten(i.second, (key.empty() ? "" : key + ".") + i.first.Scalar(), out);}
  } else if (y.IsSequence()) {
    V d;
    L s;
    for (auto i : y) {
      char t = type(i);
      if (t == 'd') {d.push_back(i.as<double>());}
      if (t == 's') {s.push_back(i.Scalar());}
      if (t != 'd' && t != 's') {throw std::runtime_error("list of whole numbers: " + key);}
    }
    if (!s.empty() && !d.empty()) {throw std::runtime_error("list of several types: " + key);}
    if (s.empty()) {out[key] = d;} else {out[key] = s;}
  } else {
    char t = type(y);
    if (t == 'b') {out[key] = y.as<bool>();}
    if (t == 'i') {out[key] = y.as<int>();}
    if (t == 'd') {out[key] = y.as<double>();}
    if (t == 's') {out[key] = y.Scalar();}
  }
}

// The node starts from the example configuration, and from any with the same types
static void Example(Gen & g, Case & c)
{
  YAML::Node y = YAML::LoadFile(REPOSITORY "/config/example.yaml");
  std::map<std::string, rclcpp::ParameterValue> all;
  Flatten(y.begin()->second["ros__parameters"], "", all);
  auto & table = rclcpp::TheWorld().overrides;
  table.clear();
  std::map<std::string, L> list;
  for (auto & k : {"imu", "camera", "tracker", "fiducial", "gps"}) {list[k] = all.at(std::string(k) + "_list").sa;}
  // Several sensors like those of the example
  for (auto & k : list) {
    if (g.Coin(0.6)) {continue;}
    L names;
    int n = g.Int(0, 3);
    if (k.first == "tracker" || k.first == "fiducial") {n = std::max(n, 1);}
    std::string from = k.first + "." + k.second[0] + ".";
    for (int i = 0; i < n; ++i) {
      names.push_back(i == 0 ? k.second[0] : "other" + std::to_string(i));
      if (i == 0) {continue;}
      std::map<std::string, rclcpp::ParameterValue> more;
      for (auto & p : all) {
        if (p.first.compare(0, from.size(), from) == 0) {more[k.first + "." + names.back() + "." + p.first.substr(from.size())] = p.second;}
      }
      all.insert(more.begin(), more.end());
      auto t = all.find(k.first + "." + names.back() + ".topic");
      if (t != all.end()) {t->second = "/" + names.back() + "/" + k.first;}
    }
    k.second = names;
    all[k.first + "_list"] = names;
  }
  int left = 0, changed = 0;
  bool some = g.Coin();
  for (auto p : all) {
    bool is_list = p.first.size() > 5 && p.first.compare(p.first.size() - 5, 5, "_list") == 0;
    if (some && !is_list && p.first.find(".topic") == std::string::npos && g.Coin(0.1)) {++left; continue;}
    if (some && p.second.t == rclcpp::ParameterType::DOUBLE && p.second.d > 0 && g.Coin(0.2)) {p.second = p.second.d * g.Real(0.5, 2.0); ++changed;}
    table.insert(p);
  }
  Scratch s;
  table["log_directory"] = s.dir;
  int ran = 0;
  rclcpp::TheWorld().spin = [&](rclcpp::Node::SharedPtr) {
      ++ran;
      auto topic = [&](const std::string & kind, const std::string & n) {return table.at(kind + "." + n + ".topic").s;};
      for (auto & n : list["imu"]) {Find<sensor_msgs::msg::Imu>(topic("imu", n));}
      for (auto & n : list["gps"]) {Find<sensor_msgs::msg::NavSatFix>(topic("gps", n));}
      for (auto & n : list["camera"]) {
        Find<sensor_msgs::msg::Image>(topic("camera", n));
        c.Check(Publishers<sensor_msgs::msg::Image>(n).size() == 1, "no publisher of the images of " + n);
      }
      size_t subscriptions = 0;
      for (auto & w : rclcpp::TheWorld().subscriptions) {if (w.lock()) {++subscriptions;}}
      c.Check(subscriptions == list["imu"].size() + list["gps"].size() + list["camera"].size(), "subscriptions");
    };
  c.note << list["imu"].size() << " IMUs, " << list["camera"].size() << " cameras, " << list["gps"].size() << " GPS, " << left << " parameters omitted, " << changed << " changed";
  char name[] = "ekf_cal_node";
  char * argv[] = {name, nullptr};
  std::string why;
  try {
    if (ros_main(1, argv) != 0) {why = "exit status";}
  } catch (const std::exception & e) {
    why = e.what();
  }
  table.clear();
  rclcpp::TheWorld().log.clear();
  c.Check(why.empty() && ran == 1, "node did not start: " + why);
  c.NonTrivial();
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C25";
  p.rule = "as-configured: more than three messages and more than three log rows; example: every case; messages: at least one printed";
  p.Add("as-configured", 1000, 12000, AsConfigured, 120.0);
  p.Add("example", 1000, 10000, Example);
  p.Add("messages", 20000, 200000, Messages);
  return pbt::Main(argc, argv, {p});
}
