// Random operation histories on complete filters: sensors with their updaters, predictions, frames and
// measurements made from the filter's own estimate plus noise.
#ifndef HISTORY_HPP_
#define HISTORY_HPP_

#include "ekf/update/fiducial_updater.hpp"
#include "ekf/update/gps_updater.hpp"
#include "ekf/update/imu_updater.hpp"
#include "ekf/update/msckf_updater.hpp"
#include "model.hpp"
#include "utility/gps_helper.hpp"

namespace history
{
using namespace model;

// Everything needed to build the same filter several times
struct Sensors
{
  struct Reg
  {
    int kind;
    unsigned int id;
    ImuState imu;
    GpsState gps;
    CamState cam;
    FidState fid;
    Eigen::MatrixXd cov;
  };
  EKF::Parameters params;
  BodyState body;
  double time{0.0};
  unsigned int track_length{20};
  std::vector<Reg> regs;
};

struct Limits
{
  int max_sensors{5};
  double att{1.0};       // scale of attitudes
  bool lla_known{true};
  bool small{false};
};

inline Sensors RandomSensors(Gen & g, Case & c, const Limits & lim)
{
  Sensors s;
  s.params = RandomParams(g, false);
  s.params.augmenting_type = g.Pick(std::vector<AugmentationType>{
    AugmentationType::ALL, AugmentationType::PRIMARY, AugmentationType::NONE, AugmentationType::TIME, AugmentationType::ERROR});
  static const char * aug[] = {"NONE", "ALL", "PRIMARY", "TIME", "ERROR"};
  c.note << aug[static_cast<int>(s.params.augmenting_type)] << " ";
  s.params.augmenting_delta_time = g.Log(0.05, 2.0);
  s.params.augmenting_pos_error = g.Log(1e-3, 1.0);
  s.params.augmenting_ang_error = g.Log(1e-3, 1.0);
  s.params.motion_detection_chi_squared = g.Log(0.1, 1e4);
  s.params.imu_noise_scale_factor = g.Log(1.0, 1e3);
  s.params.use_first_estimate_jacobian = g.Coin(0.2);
  s.params.gps_init_type = GpsInitType::CONSTANT;
  s.params.pos_e_in_g = Eigen::Vector3d(g.Sym(60.0), g.Sym(179.0), g.Sym(1000.0));
  s.params.ang_l_to_e = g.Sym(3.1);
  RandomBody(g, s.body, 0.3);
  s.time = g.Coin(0.4) ? 0.0 : g.Real(-10.0, 1000.0);
  s.track_length = g.UInt(1, 6);
  int n = g.Int(1, lim.max_sensors);
  std::set<std::pair<int, unsigned int>> seen;
  for (int i = 0; i < n; ++i) {
    Sensors::Reg r;
    r.kind = g.Int(0, 3);
    r.id = g.UInt(1, 9);
    if (!seen.insert({r.kind, r.id}).second) {continue;}
    switch (r.kind) {
      case 0:
        r.imu = RandomImu(g);
        r.cov = RandomCov(g, r.imu.size, true);
        c.note << "IMU " << r.id << (r.imu.GetIsExtrinsic() ? "e" : "") << (r.imu.GetIsIntrinsic() ? "i" : "") << " ";
        break;
      case 1: r.gps = RandomGps(g); r.cov = RandomCov(g, 3, true); c.note << "GPS " << r.id << (r.gps.GetIsExtrinsic() ? "e " : " "); break;
      case 2:
        r.cam = RandomCam(g);
        r.cam.intrinsics.f_x = r.cam.intrinsics.f_y = g.Real(0.005, 0.02);
        r.cov = RandomCov(g, 6, true);
        c.note << "camera " << r.id << (r.cam.GetIsExtrinsic() ? "e " : " ");
        break;
      default: r.fid = RandomFid(g); r.fid.id = r.id; r.cov = RandomCov(g, 6, true); c.note << "fiducial " << r.id << (r.fid.GetIsExtrinsic() ? "e " : " ");
    }
    s.regs.push_back(r);
  }
  return s;
}

struct Op
{
  enum Kind {PREDICT, FRAME, IMU, GPS, FIDUCIAL, TRACKS, GRAVITY, REGISTER} kind;
  unsigned int id{0};
  unsigned int cam{0};
  unsigned int frame{0};
  double time{0.0};
  Eigen::Vector3d a{0, 0, 0}, b{0, 0, 0};
  Eigen::Vector3d ra{1, 1, 1}, rb{1, 1, 1};
  Eigen::Quaterniond q{1, 0, 0, 0};
  // Axes of the noise of IMU and GPS measurements, when it is correlated
  Eigen::Matrix3d axes{Eigen::Matrix3d::Identity()};
  Eigen::Matrix3d Noise(const Eigen::Vector3d & v) const
  {
    Eigen::Matrix3d m = axes * v.asDiagonal() * axes.transpose();
    return 0.5 * (m + m.transpose());
  }
  FeatureTracks tracks;
  double px{1.0};
  size_t reg{0};
};

class World
{
public:
  World(const Sensors & s, bool root, size_t registered, const std::string & log_dir = "", double log_rate = 0.0)
  : m_sensors(s), m_dir(log_dir), m_rate(log_rate)
  {
    EKF::Parameters p = s.params;
    p.use_root_covariance = root;
    p.log_directory = log_dir;
    p.data_log_rate = log_rate;
    aug_type = p.augmenting_type;
    ekf = std::make_shared<EKF>(p);
    ekf->SetMaxTrackLength(s.track_length);
    ekf->Initialize(s.time, s.body);
    for (size_t i = 0; i < registered; ++i) {Register(i);}
  }
  void Add(const Sensors::Reg & r)
  {
    m_sensors.regs.push_back(r);
    Register(m_sensors.regs.size() - 1);
  }
  void Register(size_t i)
  {
    const Sensors::Reg & r = m_sensors.regs[i];
    switch (r.kind) {
      case 0:
        ekf->RegisterIMU(r.id, r.imu, r.cov);
        imu[r.id] = std::make_shared<ImuUpdater>(r.id, r.imu.GetIsExtrinsic(), r.imu.GetIsIntrinsic(), m_dir, m_rate, Logger());
        break;
      case 1:
        ekf->RegisterGPS(r.id, r.gps, r.cov);
        gps[r.id] = std::make_shared<GpsUpdater>(r.id, r.gps.GetIsExtrinsic(), m_dir, m_rate, Logger());
        break;
      case 2:
        ekf->RegisterCamera(r.id, r.cam, r.cov);
        if (primary == 0) {primary = r.id;}
        msckf[r.id] = std::make_shared<MsckfUpdater>(r.id, r.cam.GetIsExtrinsic(), m_dir, m_rate, 0.1, Logger());
        break;
      default:
        ekf->RegisterFiducial(r.fid, r.cov);
    }
  }
  FiducialUpdater & Fid(unsigned int f, unsigned int cam)
  {
    auto & u = fid[{f, cam}];
    if (!u) {
      u = std::make_shared<FiducialUpdater>(f, cam, ekf->m_state.fid_states.at(f).GetIsExtrinsic(), ekf->m_state.cam_states.at(cam).GetIsExtrinsic(), m_dir, m_rate, Logger());
    }
    return *u;
  }
  void Apply(const Op & op)
  {
    switch (op.kind) {
      case Op::PREDICT: ekf->PredictModel(op.time); break;
      case Op::FRAME: ekf->PredictModel(op.time); ekf->AugmentStateIfNeeded(op.id, op.frame); break;
      case Op::IMU:
        imu.at(op.id)->UpdateEKF(*ekf, op.time, op.a, op.Noise(op.ra), op.b, op.Noise(op.rb));
        break;
      case Op::GPS: gps.at(op.id)->UpdateEKF(*ekf, op.time, op.a, op.Noise(op.ra)); break;
      case Op::FIDUCIAL: {
          BoardDetection d;
          d.frame_time = op.time;
          d.pos_f_in_c = op.a;
          d.ang_f_to_c = op.q;
          d.pos_error = op.ra;
          d.ang_error = op.rb;
          Fid(op.id, op.cam).UpdateEKF(*ekf, op.time, d);
          break;
        }
      case Op::TRACKS: msckf.at(op.id)->UpdateEKF(*ekf, op.time, op.tracks, op.px); break;
      case Op::GRAVITY: ekf->InitializeGravity(); break;
      case Op::REGISTER: Register(op.reg); break;
    }
  }

  std::shared_ptr<EKF> ekf;
  AugmentationType aug_type;
  unsigned int primary{0};
  std::map<unsigned int, std::shared_ptr<ImuUpdater>> imu;
  std::map<unsigned int, std::shared_ptr<GpsUpdater>> gps;
  std::map<unsigned int, std::shared_ptr<MsckfUpdater>> msckf;
  std::map<std::pair<unsigned int, unsigned int>, std::shared_ptr<FiducialUpdater>> fid;

private:
  Sensors m_sensors;
  std::string m_dir;
  double m_rate;
};

template<class M> unsigned int PickKey(Gen & g, const M & m)
{
  size_t k = g.Draw(m.size() - 1);
  auto it = m.begin();
  while (k--) {++it;}
  return it->first;
}

inline Eigen::Vector3d RandomVariance(Gen & g, double lo, double hi)
{
  double s = g.Log(lo, hi);
  return s * Eigen::Vector3d(g.Real(0.5, 2.0), g.Real(0.5, 2.0), g.Real(0.5, 2.0));
}

// A camera's view of a feature from the body pose it had, in pixels
inline bool View(
  const CamState & cam, const Eigen::Vector3d & pos, const Eigen::Quaterniond & ang, const Eigen::Vector3d & f, cv::Point2f & px, double & depth)
{
  Eigen::Vector3d p = cam.ang_c_to_b.inverse() * (ang.inverse() * (f - pos) - cam.pos_c_in_b);
  depth = p.z();
  if (depth < 0.5) {return false;}
  const Intrinsics & k = cam.intrinsics;
  px.x = static_cast<float>(p.x() / p.z() * k.f_x / k.pixel_size + k.width / 2);
  px.y = static_cast<float>(p.y() / p.z() * k.f_y / k.pixel_size + k.height / 2);
  return std::abs(p.x()) < 3 * p.z() && std::abs(p.y()) < 3 * p.z();
}

// The next operation, sensible for the filter's present estimate
inline Op NextOp(Gen & g, Case & c, World & w, unsigned int & frame, size_t total_regs, size_t & registered)
{
  EKF & ekf = *w.ekf;
  const State & s = ekf.m_state;
  for (;; ) {
    Op op;
    int k = g.Int(0, 11);
    double dt = g.Coin(0.1) ? 0.0 : (g.Coin(0.05) ? -g.Log(1e-3, 1.0) : g.Log(1e-3, 0.5));
    op.time = ekf.GetCurrentTime() + dt;
    if (k <= 1) {op.kind = Op::PREDICT; c.note << "; predict " << dt; return op;}
    if (k <= 3 && !w.msckf.empty()) {
      op.kind = Op::FRAME;
      op.id = PickKey(g, w.msckf);
      op.frame = frame++;
      op.time = ekf.GetCurrentTime() + std::abs(dt);
      c.note << "; frame " << op.id << "/" << op.frame << " +" << std::abs(dt);
      return op;
    }
    if (k <= 5 && !w.imu.empty()) {
      op.kind = Op::IMU;
      op.id = PickKey(g, w.imu);
      const ImuState & i = s.imu_states.at(op.id);
      op.ra = RandomVariance(g, 1e-4, 1.0);
      op.rb = RandomVariance(g, 1e-6, 1e-2);
      if (g.Coin(0.3)) {op.axes = gen::Quat(g).toRotationMatrix(); c.Label("correlated_noise");}
      bool still = g.Coin(0.6);
      Eigen::Quaterniond q = (s.body_state.ang_b_to_l * i.ang_i_to_b).inverse();
      op.a = q * (still ? Eigen::Vector3d(0, 0, 9.80665) : Eigen::Vector3d(Eigen::Vector3d(0, 0, 9.80665) + gen::Vec(g, 3.0))) + i.acc_bias;
      op.b = q * (still ? Eigen::Vector3d(0, 0, 0) : gen::Vec(g, 1.0)) + i.omg_bias;
      for (int d = 0; d < 3; ++d) {op.a(d) += std::sqrt(op.ra(d)) * g.Normal(); op.b(d) += std::sqrt(op.rb(d)) * g.Normal();}
      c.note << "; IMU " << op.id << (still ? " still " : " moving ") << dt;
      c.Label("imu");
      return op;
    }
    if (k <= 7 && !w.gps.empty()) {
      op.kind = Op::GPS;
      op.id = PickKey(g, w.gps);
      op.ra = RandomVariance(g, 1e-2, 10.0);
      if (g.Coin(0.3)) {op.axes = gen::Quat(g).toRotationMatrix(); c.Label("correlated_noise");}
      Eigen::Vector3d p = s.body_state.pos_b_in_l + s.body_state.ang_b_to_l * s.gps_states.at(op.id).pos_a_in_b;
      for (int d = 0; d < 3; ++d) {p(d) += std::sqrt(op.ra(d)) * g.Normal();}
      op.a = enu_to_lla(local_to_enu(p, ekf.GetReferenceAngle()), ekf.GetReferenceLLA());
      c.note << "; GPS " << op.id << " +" << dt;
      c.Label("gps");
      return op;
    }
    if (k <= 8 && !s.fid_states.empty() && !w.msckf.empty()) {
      op.kind = Op::FIDUCIAL;
      op.id = PickKey(g, s.fid_states);
      op.cam = PickKey(g, w.msckf);
      op.ra = RandomVariance(g, 1e-4, 1.0);
      op.rb = RandomVariance(g, 1e-4, 1.0);
      const CamState & cam = s.cam_states.at(op.cam);
      const FidState & f = s.fid_states.at(op.id);
      op.a = cam.ang_c_to_b.inverse() * (s.body_state.ang_b_to_l.inverse() * (f.pos_f_in_l - s.body_state.pos_b_in_l) - cam.pos_c_in_b);
      op.q = (s.body_state.ang_b_to_l * cam.ang_c_to_b).inverse() * f.ang_f_to_l;
      Eigen::Vector3d r;
      for (int d = 0; d < 3; ++d) {op.a(d) += std::sqrt(op.ra(d)) * g.Normal(); r(d) = 0.3 * std::sqrt(op.rb(d)) * g.Normal();}
      op.q = op.q * Eigen::Quaterniond(Eigen::AngleAxisd(r.norm(), r.norm() > 0 ? Eigen::Vector3d(r.normalized()) : Eigen::Vector3d(0, 0, 1)));
      c.note << "; fiducial " << op.id << " by " << op.cam << " +" << dt;
      c.Label("fiducial");
      return op;
    }
    if (k <= 9 && !w.msckf.empty()) {
      // features seen from the clones of one camera
      op.kind = Op::TRACKS;
      op.id = PickKey(g, w.msckf);
      op.time = ekf.GetCurrentTime();
      op.px = g.Log(0.1, 10.0);
      unsigned int key = op.id;
      AugmentationType type = w.aug_type;
      if (type == AugmentationType::PRIMARY) {key = w.primary;}
      if (type == AugmentationType::TIME || type == AugmentationType::ERROR) {key = 0;}
      auto it = s.aug_states.find(key);
      if (it == s.aug_states.end() || it->second.size() < 2) {continue;}
      const CamState & cam = s.cam_states.at(op.id);
      int n = g.Int(1, 4);
      for (int i = 0; i < n; ++i) {
        const AugState & base = it->second.back();
        Eigen::Vector3d in_c(g.Sym(1.0), g.Sym(1.0), 1.0);
        in_c *= g.Real(2.0, 20.0);
        FeatureTrack t;
        t.true_feature_position = base.ang_b_to_l * (cam.ang_c_to_b * in_c + cam.pos_c_in_b) + base.pos_b_in_l;
        for (auto & a : it->second) {
          if (g.Coin(0.1)) {continue;}
          FeaturePoint p;
          p.frame_id = a.frame_id;
          p.frame_time = a.time;
          double depth;
          if (!View(cam, a.pos_b_in_l, a.ang_b_to_l, t.true_feature_position, p.key_point.pt, depth)) {continue;}
          p.key_point.pt.x += static_cast<float>(op.px * g.Normal());
          p.key_point.pt.y += static_cast<float>(op.px * g.Normal());
          p.key_point.class_id = i;
          t.track.push_back(p);
        }
        if (t.track.size() >= 2) {op.tracks.push_back(t);}
      }
      if (op.tracks.empty()) {continue;}
      c.note << "; " << op.tracks.size() << " tracks by " << op.id;
      c.Label("tracks");
      return op;
    }
    if (k == 10) {op.kind = Op::GRAVITY; c.note << "; gravity"; return op;}
    if (k == 11 && registered < total_regs) {
      op.kind = Op::REGISTER;
      op.reg = registered++;
      c.note << "; register " << op.reg;
      return op;
    }
  }
}
}  // namespace history

#endif  // HISTORY_HPP_
