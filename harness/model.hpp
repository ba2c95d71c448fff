// Views of a filter by quantity rather than by index, and random filters.
#ifndef MODEL_HPP_
#define MODEL_HPP_

#include <map>
#include <memory>
#include <set>
#include <tuple>

#include "ekf/ekf.hpp"
#include "ekf/types.hpp"
#include "infrastructure/debug_logger.hpp"
#include "util.hpp"

namespace model
{
using pbt::Case;
using pbt::Gen;
using namespace util;

enum Kind {BODY, IMU_EXT, IMU_INT, GPS, CAM, FID, AUG};

struct Label
{
  int kind;
  unsigned int id;   // sensor or clone set
  unsigned int sub;  // position in the clone set
  bool operator<(const Label & o) const {return std::tie(kind, id, sub) < std::tie(o.kind, o.id, o.sub);}
  bool operator==(const Label & o) const {return kind == o.kind && id == o.id && sub == o.sub;}
};
inline std::string Name(const Label & l)
{
  static const char * n[] = {"body", "IMU extrinsics", "IMU intrinsics", "GPS", "camera", "fiducial", "clone"};
  std::string s = n[l.kind];
  if (l.kind != BODY) {s += " " + std::to_string(l.id);}
  if (l.kind == AUG) {s += "/" + std::to_string(l.sub);}
  return s;
}
struct Block
{
  Label label;
  unsigned int index;
  unsigned int size;
};

// Where the filter says each estimated quantity is, in the documented order
inline std::vector<Block> Blocks(const EKF & ekf)
{
  std::vector<Block> b;
  const State & s = ekf.m_state;
  b.push_back(Block{Label{BODY, 0, 0}, s.body_state.index, 18});
  for (auto & i : s.imu_states) {
    if (i.second.GetIsExtrinsic()) {b.push_back(Block{Label{IMU_EXT, i.first, 0}, i.second.index_extrinsic, 6});}
    if (i.second.GetIsIntrinsic()) {b.push_back(Block{Label{IMU_INT, i.first, 0}, i.second.index_intrinsic, 6});}
  }
  for (auto & i : s.gps_states) {if (i.second.GetIsExtrinsic()) {b.push_back(Block{Label{GPS, i.first, 0}, i.second.index, 3});}}
  for (auto & i : s.cam_states) {if (i.second.GetIsExtrinsic()) {b.push_back(Block{Label{CAM, i.first, 0}, i.second.index, 6});}}
  for (auto & i : s.fid_states) {if (i.second.GetIsExtrinsic()) {b.push_back(Block{Label{FID, i.first, 0}, i.second.index, 6});}}
  for (auto & v : s.aug_states) {
    for (unsigned int k = 0; k < v.second.size(); ++k) {
      b.push_back(Block{Label{AUG, v.first, k}, v.second[k].index, 6});
    }
  }
  return b;
}

// The layout invariant
inline void CheckLayout(Case & c, const EKF & ekf, bool indexed)
{
  auto blocks = Blocks(ekf);
  unsigned int total = 0;
  for (auto & b : blocks) {total += b.size;}
  c.Check(ekf.GetStateSize() == total, "state size is " + std::to_string(ekf.GetStateSize()) + ", the estimated quantities add up to " + std::to_string(total));
  c.Check(ekf.m_cov.rows() == static_cast<int>(total) && ekf.m_cov.cols() == static_cast<int>(total),
    "covariance is " + std::to_string(ekf.m_cov.rows()) + "x" + std::to_string(ekf.m_cov.cols()) + " for a state of size " + std::to_string(total));
  c.Check(ekf.m_state.GetStateSize() == total, "state reports size " + std::to_string(ekf.m_state.GetStateSize()) + " instead of " + std::to_string(total));
  unsigned int sizes[7] = {0, 0, 0, 0, 0, 0, 0};
  for (auto & b : blocks) {sizes[b.label.kind] += b.size;}
  c.Check(ekf.GetImuStateSize() == sizes[IMU_EXT] + sizes[IMU_INT], "IMU part size");
  c.Check(ekf.GetGpsStateSize() == sizes[GPS], "GPS part size");
  c.Check(ekf.GetCamStateSize() == sizes[CAM], "camera part size");
  c.Check(ekf.GetAugStateSize() == sizes[AUG], "clone part size is " + std::to_string(ekf.GetAugStateSize()) + " instead of " + std::to_string(sizes[AUG]));
  c.Check(ekf.GetImuCount() == ekf.m_state.imu_states.size() && ekf.GetGpsCount() == ekf.m_state.gps_states.size() &&
    ekf.GetCamCount() == ekf.m_state.cam_states.size(), "sensor counts");
  unsigned int at = 0;
  for (auto & b : blocks) {
    c.Check(b.index == at, Name(b.label) + " is at index " + std::to_string(b.index) + ", expected " + std::to_string(at));
    at += b.size;
  }
  if (indexed) {
    unsigned int s = 18;
    c.Check(ekf.GetImuStateStart() == s, "start of the IMU part");
    s += sizes[IMU_EXT] + sizes[IMU_INT];
    c.Check(ekf.GetGpsStateStart() == s, "start of the GPS part");
    s += sizes[GPS];
    c.Check(ekf.GetCamStateStart() == s, "start of the camera part");
    s += sizes[CAM];
    c.Check(ekf.GetFidStateStart() == s, "start of the fiducial part");
    s += sizes[FID];
    c.Check(ekf.GetAugStateStart() == s, "start of the clone part");
  }
  for (auto & i : ekf.m_state.imu_states) {
    c.Check(!i.second.GetIsExtrinsic() || i.second.index == i.second.index_extrinsic, "IMU index");
    c.Check(i.second.GetIsExtrinsic() || !i.second.GetIsIntrinsic() || i.second.index == i.second.index_intrinsic, "IMU index");
  }
}

// Covariance by quantity
class Cov
{
public:
  Cov() {}
  explicit Cov(const EKF & ekf) : m_blocks(Blocks(ekf)), m_p(Full(ekf.m_cov, ekf.GetUseRootCovariance())) {}
  // entries between two quantities
  Eigen::MatrixXd At(const Label & a, const Label & b) const
  {
    const Block & x = Find(a), & y = Find(b);
    return m_p.block(x.index, y.index, x.size, y.size);
  }
  const std::vector<Block> & Get() const {return m_blocks;}
  const Eigen::MatrixXd & P() const {return m_p;}
  bool Has(const Label & l) const
  {
    for (auto & b : m_blocks) {if (b.label == l) {return true;}}
    return false;
  }
  Eigen::VectorXd Diag(const Label & a) const {return At(a, a).diagonal();}

private:
  const Block & Find(const Label & l) const
  {
    for (auto & b : m_blocks) {if (b.label == l) {return b;}}
    throw pbt::Failure{"no such quantity: " + Name(l)};
  }
  std::vector<Block> m_blocks;
  Eigen::MatrixXd m_p;
};

// Compares one covariance entry block, relative to the standard deviations
inline void CheckEntry(
  Case & c, const Eigen::MatrixXd & got, const Eigen::MatrixXd & want, const Eigen::VectorXd & sa, const Eigen::VectorXd & sb,
  double tol, const std::string & what)
{
  for (int i = 0; i < want.rows(); ++i) {
    for (int j = 0; j < want.cols(); ++j) {
      double t = tol * std::sqrt(std::abs(sa(i) * sb(j))) + 1e-14;
      if (!Near(got(i, j), want(i, j), t)) {
        c.Fail(what + ": covariance entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + S(got(i, j)) + ", expected " + S(want(i, j)));
      }
    }
  }
}

// All values of a state, for comparisons; key is the quantity
struct Values
{
  std::map<std::string, Eigen::Vector3d> vec;
  std::map<std::string, Eigen::Quaterniond> rot;
  Values() {}
  explicit Values(const State & s)
  {
    vec["body position"] = s.body_state.pos_b_in_l;
    vec["body velocity"] = s.body_state.vel_b_in_l;
    vec["body acceleration"] = s.body_state.acc_b_in_l;
    rot["body orientation"] = s.body_state.ang_b_to_l;
    vec["body angular velocity"] = s.body_state.ang_vel_b_in_l;
    vec["body angular acceleration"] = s.body_state.ang_acc_b_in_l;
    for (auto & i : s.imu_states) {
      std::string n = "IMU " + std::to_string(i.first);
      vec[n + " position"] = i.second.pos_i_in_b;
      rot[n + " orientation"] = i.second.ang_i_to_b;
      vec[n + " accelerometer bias"] = i.second.acc_bias;
      vec[n + " gyroscope bias"] = i.second.omg_bias;
    }
    for (auto & i : s.gps_states) {vec["GPS " + std::to_string(i.first) + " antenna"] = i.second.pos_a_in_b;}
    for (auto & i : s.cam_states) {
      std::string n = "camera " + std::to_string(i.first);
      vec[n + " position"] = i.second.pos_c_in_b;
      rot[n + " orientation"] = i.second.ang_c_to_b;
    }
    for (auto & i : s.fid_states) {
      std::string n = "fiducial " + std::to_string(i.first);
      vec[n + " position"] = i.second.pos_f_in_l;
      rot[n + " orientation"] = i.second.ang_f_to_l;
    }
    for (auto & v : s.aug_states) {
      for (size_t k = 0; k < v.second.size(); ++k) {
        std::string n = "clone " + std::to_string(v.first) + "/" + std::to_string(k);
        vec[n + " position"] = v.second[k].pos_b_in_l;
        rot[n + " orientation"] = v.second[k].ang_b_to_l;
      }
    }
  }
};
inline void CheckValues(Case & c, const Values & got, const Values & want, double tol, const std::string & what)
{
  c.Check(got.vec.size() == want.vec.size() && got.rot.size() == want.rot.size(), what + ": the set of quantities changed");
  for (auto & v : want.vec) {
    auto it = got.vec.find(v.first);
    c.Check(it != got.vec.end(), what + ": lost " + v.first);
    CheckNear(c, it->second, v.second, tol * (1 + v.second.norm()), what + ": " + v.first);
  }
  for (auto & v : want.rot) {
    auto it = got.rot.find(v.first);
    c.Check(it != got.rot.end(), what + ": lost " + v.first);
    CheckRot(c, it->second, v.second, std::max(tol, 1e-9), what + ": " + v.first);
  }
}

// The values after adding a correction in the filter's coordinates: vectors add, orientations are
// multiplied on the right by the rotation of their part
inline Values Plus(const Values & v, const std::vector<Block> & blocks, const Eigen::VectorXd & d)
{
  Values o = v;
  auto rot = [&](const std::string & n, const Eigen::Vector3d & r) {
      ref::V3 x = r.cast<ref::real>();
      ref::real t = std::sqrt(x.dot(x));
      ref::real s = t > 1e-9L ? std::sin(t / 2) / t : 0.5L;
      ref::V3 y = s * x;
      Eigen::Quaterniond q(static_cast<double>(std::cos(t / 2)), static_cast<double>(y(0)), static_cast<double>(y(1)), static_cast<double>(y(2)));
      o.rot[n] = o.rot[n] * q;
    };
  for (auto & b : blocks) {
    Eigen::VectorXd x = d.segment(b.index, b.size);
    std::string id = std::to_string(b.label.id);
    switch (b.label.kind) {
      case BODY:
        o.vec["body position"] += x.segment<3>(0);
        o.vec["body velocity"] += x.segment<3>(3);
        o.vec["body acceleration"] += x.segment<3>(6);
        rot("body orientation", x.segment<3>(9));
        o.vec["body angular velocity"] += x.segment<3>(12);
        o.vec["body angular acceleration"] += x.segment<3>(15);
        break;
      case IMU_EXT: o.vec["IMU " + id + " position"] += x.segment<3>(0); rot("IMU " + id + " orientation", x.segment<3>(3)); break;
      case IMU_INT: o.vec["IMU " + id + " accelerometer bias"] += x.segment<3>(0); o.vec["IMU " + id + " gyroscope bias"] += x.segment<3>(3); break;
      case GPS: o.vec["GPS " + id + " antenna"] += x.segment<3>(0); break;
      case CAM: o.vec["camera " + id + " position"] += x.segment<3>(0); rot("camera " + id + " orientation", x.segment<3>(3)); break;
      case FID: o.vec["fiducial " + id + " position"] += x.segment<3>(0); rot("fiducial " + id + " orientation", x.segment<3>(3)); break;
      case AUG: {
          std::string n = "clone " + id + "/" + std::to_string(b.label.sub);
          o.vec[n + " position"] += x.segment<3>(0);
          rot(n + " orientation", x.segment<3>(3));
          break;
        }
    }
  }
  return o;
}

// ------------------------------------------------------------------------------------------
inline std::shared_ptr<DebugLogger> Logger()
{
  static std::shared_ptr<DebugLogger> l = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
  return l;
}

inline unsigned int RandomId(Gen & g) {return g.Coin(0.1) ? g.UInt(1, 4000000000u) : g.UInt(1, 15);}

inline void RandomBody(Gen & g, BodyState & b, double scale = 1.0)
{
  b.pos_b_in_l = gen::Vec(g, 100.0 * scale);
  b.vel_b_in_l = gen::Vec(g, 10.0 * scale);
  b.acc_b_in_l = gen::Vec(g, 10.0 * scale) + Eigen::Vector3d(0, 0, 9.80665);
  b.ang_b_to_l = gen::Quat(g);
  b.ang_vel_b_in_l = gen::Vec(g, 3.0 * scale);
  b.ang_acc_b_in_l = gen::Vec(g, 3.0 * scale);
}

inline Eigen::VectorXd ProcessNoise(Gen & g)
{
  Eigen::VectorXd q(18);
  double a = g.Coin(0.1) ? 0.0 : g.Log(1e-8, 1.0);
  for (int i = 0; i < 18; ++i) {q(i) = a * g.Real(0.1, 1.0);}
  return q;
}

inline EKF::Parameters RandomParams(Gen & g, bool root)
{
  EKF::Parameters p;
  p.debug_logger = Logger();
  p.process_noise = ProcessNoise(g);
  p.use_root_covariance = root;
  return p;
}

inline ImuState RandomImu(Gen & g)
{
  ImuState s;
  s.SetIsExtrinsic(g.Coin(0.6));
  s.SetIsIntrinsic(g.Coin(0.6));
  s.pos_i_in_b = gen::Vec(g, 2.0);
  s.ang_i_to_b = gen::Quat(g);
  s.acc_bias = gen::Vec(g, 0.5);
  s.omg_bias = gen::Vec(g, 0.1);
  s.pos_stability = g.Log(1e-9, 1e-3);
  s.ang_stability = g.Log(1e-9, 1e-3);
  s.acc_bias_stability = g.Log(1e-9, 1e-3);
  s.omg_bias_stability = g.Log(1e-9, 1e-3);
  return s;
}
inline GpsState RandomGps(Gen & g)
{
  GpsState s;
  s.SetIsExtrinsic(g.Coin(0.6));
  s.pos_a_in_b = gen::Vec(g, 2.0);
  s.pos_stability = g.Log(1e-9, 1e-3);
  return s;
}
inline CamState RandomCam(Gen & g)
{
  CamState s;
  s.SetIsExtrinsic(g.Coin(0.6));
  s.pos_c_in_b = gen::Vec(g, 2.0);
  s.ang_c_to_b = gen::Quat(g);
  s.pos_stability = g.Log(1e-9, 1e-3);
  s.ang_stability = g.Log(1e-9, 1e-3);
  s.rate = g.Log(1.0, 60.0);
  return s;
}
inline FidState RandomFid(Gen & g)
{
  FidState s;
  s.SetIsExtrinsic(g.Coin(0.6));
  s.id = RandomId(g);
  s.pos_f_in_l = gen::Vec(g, 10.0);
  s.ang_f_to_l = gen::Quat(g);
  s.pos_stability = g.Log(1e-9, 1e-3);
  s.ang_stability = g.Log(1e-9, 1e-3);
  return s;
}
// Initial covariance for a registration: any in the standard form; diagonal in the square-root
// form (the filter takes element-wise roots there)
inline Eigen::MatrixXd RandomCov(Gen & g, int n, bool diagonal)
{
  if (!diagonal && g.Coin(0.5)) {return gen::Spd(g, n, 1e-6, 10.0);}
  Eigen::VectorXd d(n);
  double lo = g.Log(1e-8, 1.0);
  for (int i = 0; i < n; ++i) {d(i) = lo * g.Real(0.5, 20.0);}
  return d.asDiagonal();
}
// Gives the filter an arbitrary correlated covariance
inline void SetCov(EKF & ekf, const Eigen::MatrixXd & p)
{
  if (ekf.GetUseRootCovariance()) {
    Eigen::LLT<Eigen::MatrixXd> llt(p);
    ekf.m_cov = Eigen::MatrixXd(llt.matrixL()).transpose();
  } else {
    ekf.m_cov = p;
  }
}
// A filter with random sensors, clones and body state; covariance arbitrary
struct Built
{
  std::shared_ptr<EKF> ekf;
  std::vector<unsigned int> cams;
  unsigned int frame{1};
  double time{0.0};
};
inline Built Build(Gen & g, Case & c, EKF::Parameters params, int max_sensors = 3, int max_frames = 4)
{
  Built b;
  b.ekf = std::make_shared<EKF>(params);
  bool root = params.use_root_covariance;
  BodyState body;
  RandomBody(g, body);
  b.time = g.Coin(0.3) ? 0.0 : g.Real(-10.0, 1000.0);
  b.ekf->Initialize(b.time, body);
  int n = g.Int(1, max_sensors);
  for (int i = 0; i < n; ++i) {
    unsigned int id = RandomId(g);
    switch (g.Int(0, 3)) {
      case 0: {
          ImuState s = RandomImu(g);
          if (b.ekf->m_state.imu_states.count(id)) {break;}
          b.ekf->RegisterIMU(id, s, RandomCov(g, s.size, root));
          c.note << "IMU " << id << (s.GetIsExtrinsic() ? "e" : "") << (s.GetIsIntrinsic() ? "i" : "") << " ";
          break;
        }
      case 1: {
          GpsState s = RandomGps(g);
          b.ekf->RegisterGPS(id, s, RandomCov(g, 3, root));
          c.note << "GPS " << id << (s.GetIsExtrinsic() ? "e " : " ");
          break;
        }
      case 2: {
          CamState s = RandomCam(g);
          if (!b.ekf->m_state.cam_states.count(id)) {b.cams.push_back(id);}
          b.ekf->RegisterCamera(id, s, RandomCov(g, 6, root));
          c.note << "camera " << id << (s.GetIsExtrinsic() ? "e " : " ");
          break;
        }
      default: {
          FidState s = RandomFid(g);
          b.ekf->RegisterFiducial(s, RandomCov(g, 6, root));
          c.note << "fiducial " << s.id << (s.GetIsExtrinsic() ? "e " : " ");
        }
    }
  }
  if (!b.cams.empty()) {
    int f = g.Int(0, max_frames);
    for (int i = 0; i < f; ++i) {
      unsigned int id = g.Pick(b.cams);
      b.ekf->AugmentStateIfNeeded(id, b.frame++);
      // the body moves between frames
      BodyState next;
      RandomBody(g, next);
      next.index = b.ekf->m_state.body_state.index;
      b.ekf->m_state.body_state = next;
    }
    c.note << f << " frames ";
  }
  return b;
}
// Process noise per unit time by quantity, from the parameters the caller gave
inline Eigen::VectorXd Noise(const EKF & ekf, const Eigen::VectorXd & body)
{
  Eigen::VectorXd q = Eigen::VectorXd::Zero(ekf.GetStateSize());
  for (auto & b : Blocks(ekf)) {
    switch (b.label.kind) {
      case BODY: q.segment(0, 18) = body; break;
      case IMU_EXT: {
          auto & s = ekf.m_state.imu_states.at(b.label.id);
          q.segment(b.index, 3).setConstant(s.pos_stability);
          q.segment(b.index + 3, 3).setConstant(s.ang_stability);
          break;
        }
      case IMU_INT: {
          auto & s = ekf.m_state.imu_states.at(b.label.id);
          q.segment(b.index, 3).setConstant(s.acc_bias_stability);
          q.segment(b.index + 3, 3).setConstant(s.omg_bias_stability);
          break;
        }
      case GPS: q.segment(b.index, 3).setConstant(ekf.m_state.gps_states.at(b.label.id).pos_stability); break;
      case CAM: {
          auto & s = ekf.m_state.cam_states.at(b.label.id);
          q.segment(b.index, 3).setConstant(s.pos_stability);
          q.segment(b.index + 3, 3).setConstant(s.ang_stability);
          break;
        }
      case FID: {
          auto & s = ekf.m_state.fid_states.at(b.label.id);
          q.segment(b.index, 3).setConstant(s.pos_stability);
          q.segment(b.index + 3, 3).setConstant(s.ang_stability);
          break;
        }
      default: break;
    }
  }
  return q;
}
}  // namespace model

#endif  // MODEL_HPP_
