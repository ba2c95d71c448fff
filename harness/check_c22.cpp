// C22: sensor objects configure the filter and pass their measurements to it
#include "files.hpp"
#include "history.hpp"
#include "truth.hpp"

#include "sensors/sim/sim_camera.hpp"
#include "sensors/sim/sim_camera_message.hpp"
#include "sensors/sim/sim_gps.hpp"
#include "sensors/sim/sim_gps_message.hpp"
#include "sensors/sim/sim_imu.hpp"
#include "sensors/sim/sim_imu_message.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "trackers/sim/sim_feature_tracker_message.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "trackers/sim/sim_fiducial_tracker_message.hpp"

using namespace history;
using util::CheckNear;
using util::S;

static Eigen::VectorXd AnyVariance(Gen & g, int n, bool zero)
{
  Eigen::VectorXd v(n);
  double lo = g.Log(1e-5, 1.0);
  for (int i = 0; i < n; ++i) {v(i) = zero && g.Coin(0.1) ? (g.Coin() ? 0.0 : 1e-9) : lo * g.Real(0.5, 20.0);}
  return v;
}
static Eigen::VectorXd Bounded(const Eigen::VectorXd & v) {return v.cwiseMax(1e-6);}

// Two filters: one with sensor objects, one with direct registrations and updaters
struct Pair
{
  Sensors s;
  std::shared_ptr<EKF> ekf;
  std::shared_ptr<World> world;
  std::shared_ptr<TruthEngine> truth;
  std::map<unsigned int, std::shared_ptr<SimIMU>> imu;
  std::map<unsigned int, std::shared_ptr<SimGPS>> gps;
  std::map<unsigned int, std::shared_ptr<SimCamera>> cam;
  std::map<unsigned int, std::shared_ptr<SimFeatureTracker>> tracker;                            // by camera
  std::map<unsigned int, double> px;                                                             // by camera
  std::map<std::pair<unsigned int, unsigned int>, std::shared_ptr<SimFiducialTracker>> board;    // by board, camera
  std::set<unsigned int> board_ids;
  bool root;
};

static void Common(Sensor::Parameters & p, Pair & w, const std::string & dir, double rate)
{
  p.ekf = w.ekf;
  p.logger = truth::Silent();
  p.log_directory = dir;
  p.data_log_rate = rate;
}
static void Common(Tracker::Parameters & p, Pair & w, const std::string & dir, double rate)
{
  p.ekf = w.ekf;
  p.logger = truth::Silent();
  p.log_directory = dir;
  p.data_log_rate = rate;
}

static Pair Build(Gen & g, Case & c, const std::string & dir_a, const std::string & dir_b, double rate)
{
  Pair w;
  Limits lim;
  lim.max_sensors = 1;
  w.s = RandomSensors(g, c, lim);
  w.s.regs.clear();
  w.root = g.Coin();
  c.note << (w.root ? "root " : "standard ");
  EKF::Parameters ep = w.s.params;
  ep.use_root_covariance = w.root;
  ep.log_directory = dir_a;
  ep.data_log_rate = rate;
  w.ekf = std::make_shared<EKF>(ep);
  w.ekf->SetMaxTrackLength(w.s.track_length);
  w.ekf->Initialize(w.s.time, w.s.body);
  w.world = std::make_shared<World>(w.s, w.root, 0, dir_b, rate);
  w.truth = truth::AnyMotion(g, 1.0).engine;
  int n = g.Int(1, 5);
  unsigned int last = 0;
  for (int i = 0; i < n; ++i) {
    Sensors::Reg r;
    r.kind = g.Int(0, 2);
    bool free = g.Coin();  // without errors, or not: no matter for the filter
    switch (r.kind) {
      case 0: {
          r.imu = RandomImu(g);
          SimIMU::Parameters p;
          p.no_errors = free;
          Common(p.imu_params, w, dir_a, rate);
          auto & q = p.imu_params;
          q.is_extrinsic = r.imu.GetIsExtrinsic();
          q.is_intrinsic = r.imu.GetIsIntrinsic();
          q.pos_i_in_b = r.imu.pos_i_in_b;
          q.ang_i_to_b = r.imu.ang_i_to_b;
          q.acc_bias = r.imu.acc_bias;
          q.omg_bias = r.imu.omg_bias;
          q.pos_stability = r.imu.pos_stability;
          q.ang_stability = r.imu.ang_stability;
          q.acc_bias_stability = r.imu.acc_bias_stability;
          q.omg_bias_stability = r.imu.omg_bias_stability;
          q.variance = AnyVariance(g, 12, true);
          Eigen::VectorXd v = Bounded(q.variance);
          if (q.is_extrinsic && q.is_intrinsic) {r.cov = v.asDiagonal();}
          else if (q.is_extrinsic) {r.cov = Eigen::VectorXd(v.head(6)).asDiagonal();}
          else if (q.is_intrinsic) {r.cov = Eigen::VectorXd(v.tail(6)).asDiagonal();}
          else {r.cov.resize(0, 0);}
          auto o = std::make_shared<SimIMU>(p, w.truth);
          r.id = o->GetId();
          w.imu[r.id] = o;
          c.note << "IMU " << (q.is_extrinsic ? "e" : "") << (q.is_intrinsic ? "i " : " ");
          break;
        }
      case 1: {
          r.gps = RandomGps(g);
          SimGPS::Parameters p;
          p.no_errors = free;
          Common(p.gps_params, w, dir_a, rate);
          p.gps_params.is_extrinsic = r.gps.GetIsExtrinsic();
          p.gps_params.pos_a_in_b = r.gps.pos_a_in_b;
          p.gps_params.pos_stability = r.gps.pos_stability;
          p.gps_params.variance = AnyVariance(g, 3, false);
          r.cov = p.gps_params.variance.asDiagonal();
          auto o = std::make_shared<SimGPS>(p, w.truth);
          r.id = o->GetId();
          w.gps[r.id] = o;
          c.note << "GPS " << (r.gps.GetIsExtrinsic() ? "e " : "");
          break;
        }
      default: {
          r.cam = RandomCam(g);
          r.cam.intrinsics.f_x = r.cam.intrinsics.f_y = g.Real(0.005, 0.02);
          r.cam.intrinsics.k_1 = g.Coin() ? 0.0 : g.Sym(0.1);
          r.cam.intrinsics.width = g.Int(300, 900);
          SimCamera::Parameters p;
          p.no_errors = free;
          Common(p.cam_params, w, dir_a, rate);
          auto & q = p.cam_params;
          q.rate = r.cam.rate;
          q.is_extrinsic = r.cam.GetIsExtrinsic();
          q.pos_c_in_b = r.cam.pos_c_in_b;
          q.ang_c_to_b = r.cam.ang_c_to_b;
          q.pos_stability = r.cam.pos_stability;
          q.ang_stability = r.cam.ang_stability;
          q.intrinsics = r.cam.intrinsics;
          q.variance = AnyVariance(g, 6, true);
          r.cov = Bounded(q.variance).asDiagonal();
          auto o = std::make_shared<SimCamera>(p, w.truth);
          r.id = o->GetId();
          w.cam[r.id] = o;
          c.note << "camera " << (q.is_extrinsic ? "e " : "");
          {
            SimFeatureTracker::Parameters t;
            Common(t.tracker_params, w, dir_a, rate);
            t.tracker_params.camera_id = r.id;
            t.tracker_params.is_cam_extrinsic = q.is_extrinsic;
            t.tracker_params.min_feat_dist = 0.1;
            t.tracker_params.px_error = w.px[r.id] = g.Log(0.1, 10.0);
            w.tracker[r.id] = std::make_shared<SimFeatureTracker>(t, w.truth);
            o->AddTracker(w.tracker[r.id]);
          }
        }
    }
    c.Check(r.id > last, "sensor numbers grow, so that no two sensors have the same");
    last = r.id;
    w.s.regs.push_back(r);
    w.world->Add(r);
    if (r.kind == 2) {
      int nb = g.Int(0, dir_a.empty() ? 2 : 1);  // boards of one camera would share a log
      for (int k = 0; k < nb; ++k) {
        Sensors::Reg f;
        f.kind = 3;
        f.id = g.UInt(1, 6);
        if (!w.board_ids.insert(f.id).second) {continue;}
        f.fid.SetIsExtrinsic(g.Coin());
        f.fid.id = f.id;
        f.fid.pos_f_in_l = gen::Vec(g, 10.0);
        f.fid.ang_f_to_l = gen::Quat(g);
        SimFiducialTracker::Parameters p;
        p.no_errors = g.Coin();
        auto & q = p.fiducial_params;
        Common(q, w, dir_a, rate);
        q.camera_id = r.id;
        q.detector_type = FiducialType::CHARUCO_BOARD;
        q.squares_x = 3;
        q.squares_y = 4;
        q.square_length = 0.1;
        q.marker_length = 0.05;
        q.id = f.id;
        q.pos_f_in_l = f.fid.pos_f_in_l;
        q.ang_f_to_l = f.fid.ang_f_to_l;
        q.is_extrinsic = f.fid.GetIsExtrinsic();
        q.is_cam_extrinsic = r.cam.GetIsExtrinsic();
        q.variance = AnyVariance(g, 6, false);
        f.cov = q.variance.asDiagonal();
        auto o = std::make_shared<SimFiducialTracker>(p, w.truth);
        w.board[{f.id, r.id}] = o;
        w.cam[r.id]->AddFiducial(o);
        w.world->Add(f);
        c.note << "board " << f.id << (q.is_extrinsic ? "e " : " ");
        if (!dir_b.empty()) {w.world->Fid(f.id, r.id);}  // its log exists from the start
      }
    }
  }
  return w;
}

static void Same(Case & c, const EKF & a, const EKF & b, const std::string & when)
{
  c.Check(a.m_state.GetStateSize() == b.m_state.GetStateSize(), "state size " + when);
  Eigen::VectorXd x = const_cast<EKF &>(a).m_state.ToVector(), y = const_cast<EKF &>(b).m_state.ToVector();
  CheckNear(c, x, y, 1e-9 * (1 + y.norm()), "state " + when);
  CheckNear(c, a.m_cov, b.m_cov, 1e-9 * (1 + b.m_cov.norm()), "covariance " + when);
  c.Check(a.GetCurrentTime() == b.GetCurrentTime(), "time " + when);
}

static void CheckRegistered(Case & c, const Pair & w)
{
  const State & a = w.ekf->m_state;
  const State & b = w.world->ekf->m_state;
  c.Check(a.imu_states.size() == b.imu_states.size() && a.gps_states.size() == b.gps_states.size() &&
    a.cam_states.size() == b.cam_states.size() && a.fid_states.size() == b.fid_states.size(), "all sensors are registered");
  for (auto & i : b.imu_states) {
    c.Check(a.imu_states.count(i.first), "IMU number");
    auto & x = a.imu_states.at(i.first);
    auto & y = i.second;
    c.Check(x.pos_i_in_b == y.pos_i_in_b && x.ang_i_to_b.coeffs() == y.ang_i_to_b.coeffs() && x.acc_bias == y.acc_bias && x.omg_bias == y.omg_bias, "IMU start values");
    c.Check(x.pos_stability == y.pos_stability && x.ang_stability == y.ang_stability && x.acc_bias_stability == y.acc_bias_stability && x.omg_bias_stability == y.omg_bias_stability, "IMU stabilities");
    c.Check(x.GetIsExtrinsic() == y.GetIsExtrinsic() && x.GetIsIntrinsic() == y.GetIsIntrinsic(), "IMU calibration");
  }
  for (auto & i : b.gps_states) {
    c.Check(a.gps_states.count(i.first), "GPS number");
    auto & x = a.gps_states.at(i.first);
    c.Check(x.pos_a_in_b == i.second.pos_a_in_b && x.pos_stability == i.second.pos_stability && x.GetIsExtrinsic() == i.second.GetIsExtrinsic(), "GPS start values");
  }
  for (auto & i : b.cam_states) {
    c.Check(a.cam_states.count(i.first), "camera number");
    auto & x = a.cam_states.at(i.first);
    auto & y = i.second;
    c.Check(x.pos_c_in_b == y.pos_c_in_b && x.ang_c_to_b.coeffs() == y.ang_c_to_b.coeffs() && x.GetIsExtrinsic() == y.GetIsExtrinsic(), "camera start values");
    c.Check(x.pos_stability == y.pos_stability && x.ang_stability == y.ang_stability && x.rate == y.rate, "camera stabilities and rate");
    auto & p = x.intrinsics;
    auto & q = y.intrinsics;
    c.Check(p.f_x == q.f_x && p.f_y == q.f_y && p.k_1 == q.k_1 && p.k_2 == q.k_2 && p.p_1 == q.p_1 && p.p_2 == q.p_2 &&
      p.width == q.width && p.height == q.height && p.pixel_size == q.pixel_size, "camera intrinsics");
  }
  for (auto & i : b.fid_states) {
    c.Check(a.fid_states.count(i.first), "board number");
    auto & x = a.fid_states.at(i.first);
    c.Check(x.pos_f_in_l == i.second.pos_f_in_l && x.ang_f_to_l.coeffs() == i.second.ang_f_to_l.coeffs() && x.GetIsExtrinsic() == i.second.GetIsExtrinsic(), "board start values");
  }
}

static SimFiducialTrackerMessage Board(const Op & op, unsigned int tracker, bool visible)
{
  SimFiducialTrackerMessage m;
  m.time = op.time;
  m.tracker_id = tracker;
  m.sensor_id = op.cam;
  m.is_board_visible = visible;
  m.board_detection.frame_time = op.time;
  m.board_detection.frame_id = op.frame;
  m.board_detection.pos_f_in_c = op.a;
  m.board_detection.ang_f_to_c = op.q;
  m.board_detection.pos_error = op.ra;
  m.board_detection.ang_error = op.rb;
  return m;
}

static void Run(Gen & g, Case & c, Pair & w, int n)
{
  unsigned int frame = 1;
  size_t none = 0;
  int used = 0;
  for (int k = 0; k < n; ++k) {
    Op op = NextOp(g, c, *w.world, frame, 0, none);
    switch (op.kind) {
      case Op::PREDICT: w.ekf->PredictModel(op.time); w.world->Apply(op); break;
      case Op::GRAVITY: w.ekf->InitializeGravity(); w.world->Apply(op); break;
      case Op::IMU: {
          SimImuMessage m;
          m.time = op.time;
          m.sensor_id = op.id;
          m.acceleration = op.a;
          m.angular_rate = op.b;
          m.acceleration_covariance = op.Noise(op.ra);
          m.angular_rate_covariance = op.Noise(op.rb);
          w.imu.at(op.id)->Callback(m);
          w.world->Apply(op);
          ++used;
          break;
        }
      case Op::GPS: {
          SimGpsMessage m;
          m.time = op.time;
          m.sensor_id = op.id;
          m.gps_lla = op.a;
          m.pos_covariance = op.Noise(op.ra);
          w.gps.at(op.id)->Callback(m);
          w.world->Apply(op);
          ++used;
          break;
        }
      case Op::FIDUCIAL: {
          // only by the camera the board belongs to
          for (auto & b : w.board) {if (b.first.first == op.id) {op.cam = b.first.second;}}
          bool visible = !g.Coin(0.2);
          c.note << (visible ? "" : " (not visible)");
          w.board.at({op.id, op.cam})->Callback(op.time, Board(op, w.board.at({op.id, op.cam})->GetID(), visible));
          if (visible) {w.world->Apply(op);}
          ++used;
          break;
        }
      case Op::FRAME: {
          // A whole camera message: the frame, tracks of earlier frames and boards
          op.frame = frame++;
          cv::Mat blank;
          SimCameraMessage m(blank);
          m.sensor_id = op.id;
          m.time = op.time;
          m.frame_id = op.frame;
          auto t = std::make_shared<SimFeatureTrackerMessage>();
          t->tracker_id = w.tracker.at(op.id)->GetID();
          t->time = op.time;
          m.feature_track_messages.push_back(t);
          std::vector<Op> after;
          for (auto & b : w.board) {
            if (b.first.second != op.id) {continue;}
            Op d;
            d.kind = Op::FIDUCIAL;
            d.id = b.first.first;
            d.cam = op.id;
            d.frame = op.frame;
            d.time = op.time;
            const State & s = w.world->ekf->m_state;
            const CamState & cam = s.cam_states.at(op.id);
            const FidState & f = s.fid_states.at(d.id);
            d.a = cam.ang_c_to_b.inverse() * (s.body_state.ang_b_to_l.inverse() * (f.pos_f_in_l - s.body_state.pos_b_in_l) - cam.pos_c_in_b) + gen::Vec(g, 0.1);
            d.q = (s.body_state.ang_b_to_l * cam.ang_c_to_b).inverse() * f.ang_f_to_l;
            d.ra = RandomVariance(g, 1e-4, 1.0);
            d.rb = RandomVariance(g, 1e-4, 1.0);
            bool visible = !g.Coin(0.2);
            m.fiducial_track_messages.push_back(std::make_shared<SimFiducialTrackerMessage>(Board(d, b.second->GetID(), visible)));
            if (visible) {after.emplace_back(d);}
            c.note << " board " << d.id << (visible ? "" : " not visible");
          }
          w.cam.at(op.id)->Callback(m);
          w.world->Apply(op);
          for (auto & d : after) {w.world->Apply(d);}
          ++used;
          c.Label("camera message");
          break;
        }
      case Op::TRACKS: {
          op.px = w.px.at(op.id);
          SimFeatureTrackerMessage t;
          t.tracker_id = w.tracker.at(op.id)->GetID();
          t.time = op.time;
          t.feature_tracks = op.tracks;
          if (g.Coin()) {
            w.tracker.at(op.id)->Callback(op.time, t);
            w.world->Apply(op);
          } else {
            // The tracks with the frame that ends them
            cv::Mat blank;
            SimCameraMessage m(blank);
            m.sensor_id = op.id;
            m.time = op.time + g.Real(0.0, 0.01);
            m.frame_id = frame++;
            m.feature_track_messages.push_back(std::make_shared<SimFeatureTrackerMessage>(t));
            w.cam.at(op.id)->Callback(m);
            Op f;
            f.kind = Op::FRAME;
            f.id = op.id;
            f.frame = m.frame_id;
            f.time = m.time;
            w.world->Apply(f);
            op.time = m.time;
            w.world->Apply(op);
            c.Label("camera message with tracks");
          }
          ++used;
          break;
        }
      default: break;
    }
    Same(c, *w.ekf, *w.world->ekf, "after step " + S(double(k)));
  }
  if (used > 2) {c.NonTrivial();}
}

static void Registration(Gen & g, Case & c)
{
  Pair w = Build(g, c, "", "", 0.0);
  CheckRegistered(c, w);
  Same(c, *w.ekf, *w.world->ekf, "after registration");
  if (w.s.regs.size() > 1) {c.NonTrivial();}
}
static void Callbacks(Gen & g, Case & c)
{
  Pair w = Build(g, c, "", "", 0.0);
  Run(g, c, w, g.Int(1, 20));
}
// The logs of sensor objects are those of the updaters, too
static void Logs(Gen & g, Case & c)
{
  Scratch a, b;
  double rate = g.Coin(0.3) ? 1e6 : g.Log(1.0, 100.0);
  Pair w = Build(g, c, a.dir, b.dir, rate);
  Run(g, c, w, g.Int(1, 20));
  std::set<std::string> names;
  for (auto & dir : {a.dir, b.dir}) {
    DIR * d = opendir(dir.c_str());
    while (dirent * e = readdir(d)) {names.insert(e->d_name);}
    closedir(d);
  }
  int rows = 0;
  for (auto & n : names) {
    if (n.find(".csv") == std::string::npos) {continue;}
    auto x = Lines(a.dir + n), y = Lines(b.dir + n);
    c.Check(x.size() == y.size(), "rows of " + n + ": " + S(double(x.size())) + " want " + S(double(y.size())));
    for (size_t i = 0; i < x.size(); ++i) {
      auto p = Split(x[i]), q = Split(y[i]);
      c.Check(p.size() == q.size(), "columns of " + n);
      auto head = Split(x[0]);
      for (size_t j = 0; j < p.size(); ++j) {
        if (i > 0 && j < head.size() && head[j].find("duration") != std::string::npos) {continue;}
        bool same = p[j] == q[j];
        if (!same && i > 0) {
          double u = atof(p[j].c_str()), v = atof(q[j].c_str());
          same = std::abs(u - v) < 1e-4 * (1 + std::abs(v));
        }
        c.Check(same, "entry of " + n + ": " + p[j] + " want " + q[j]);
      }
      rows += i > 0;
    }
  }
  if (rows) {c.Label("with rows");}
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C22";
  p.rule = "more than one sensor (registration); more than two measurements (histories)";
  p.assumptions = {
    "the filter with direct registrations and updaters is the reference; it is judged by the other properties",
    "start variances of IMUs and cameras have a lower bound of 1e-6",
    "simulated sensor objects, which use the constructors and callbacks of the real ones (camera images apart)"};
  p.Add("registration", 15000, 500000, Registration);
  p.Add("callbacks", 12000, 400000, Callbacks);
  p.Add("logs", 2000, 40000, Logs);
  return pbt::Main(argc, argv, {p});
}
