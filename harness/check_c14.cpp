// C14: IMU updates
#include "updates.hpp"

using namespace updates;
static const Eigen::Vector3d G(0, 0, 9.80665);

static Sensors Setup(Gen & g, Case & c, int imus)
{
  Limits lim;
  lim.max_sensors = 3;
  Sensors s = RandomSensors(g, c, lim);
  int have = 0;
  for (size_t i = 0; i < s.regs.size(); ) {
    if (s.regs[i].kind == 0 && ++have > imus) {s.regs.erase(s.regs.begin() + i);} else {++i;}
  }
  for (unsigned int id = 11; have < imus; ++id, ++have) {
    Sensors::Reg r;
    r.kind = 0;
    r.id = id;
    r.imu = RandomImu(g);
    r.cov = RandomCov(g, r.imu.size, true);
    s.regs.push_back(r);
    c.note << "IMU " << r.id << (r.imu.GetIsExtrinsic() ? "e" : "") << (r.imu.GetIsIntrinsic() ? "i" : "") << " ";
  }
  return s;
}

// What an IMU measures on a rigid body, and what it measures on a body at rest
struct Model
{
  std::string n;
  Eigen::VectorXd Moving(const Values & x) const
  {
    Eigen::Quaterniond lb = x.rot.at("body orientation").inverse(), bi = x.rot.at(n + " orientation").inverse();
    Eigen::Vector3d p = x.vec.at(n + " position");
    Eigen::Vector3d w = lb * x.vec.at("body angular velocity"), al = lb * x.vec.at("body angular acceleration");
    Eigen::VectorXd z(6);
    z.segment<3>(0) = bi * (lb * x.vec.at("body acceleration") + al.cross(p) + w.cross(w.cross(p))) + x.vec.at(n + " accelerometer bias");
    z.segment<3>(3) = bi * w + x.vec.at(n + " gyroscope bias");
    return z;
  }
  Eigen::VectorXd Still(const Values & x, bool gyro) const
  {
    Eigen::VectorXd z(gyro ? 6 : 3);
    z.segment<3>(0) = (x.rot.at("body orientation") * x.rot.at(n + " orientation")).inverse() * G + x.vec.at(n + " accelerometer bias");
    if (gyro) {z.segment<3>(3) = x.vec.at(n + " gyroscope bias");}
    return z;
  }
};

struct Meas
{
  Eigen::Vector3d a, w;
  Eigen::Matrix3d ra, rw;
  double time;
};
static void Feed(World & w, unsigned int id, const Meas & m) {w.imu.at(id)->UpdateEKF(*w.ekf, m.time, m.a, m.ra, m.w, m.rw);}

// A measurement far from rest ends the stationary phase of its IMU
static void StartMoving(Gen & g, Twin & t, unsigned int id)
{
  t.a.ekf->InitializeGravity();
  t.b.ekf->InitializeGravity();
  Meas m;
  m.a = Eigen::Vector3d(1e4, -1e4, 1e4);
  m.w = Eigen::Vector3d(0, 0, 0);
  m.ra = m.rw = 1e-2 * Eigen::Matrix3d::Identity();
  m.time = t.a.ekf->GetCurrentTime();
  Feed(t.a, id, m);
  Feed(t.b, id, m);
}

static bool Has(const EKF & e, unsigned int id) {return e.m_state.imu_states.at(id).GetIsIntrinsic();}

// Stationary phase: decision, gravity, update
static void Stationary(Gen & g, Case & c)
{
  bool root = g.Coin(0.4);
  Sensors s = Setup(g, c, g.Int(1, 2));
  s.body.ang_vel_b_in_l.setZero();
  s.body.ang_acc_b_in_l.setZero();
  s.params.motion_detection_chi_squared = g.Log(0.5, 50.0);
  s.params.imu_noise_scale_factor = g.Log(1.0, 100.0);
  Twin t(s, root);
  int frames = 0;
  if (!t.a.msckf.empty()) {frames = g.Int(0, 3);}
  for (int i = 0; i < frames; ++i) {
    unsigned int cam = PickKey(g, t.a.msckf);
    double to = t.a.ekf->GetCurrentTime() + g.Log(1e-2, 0.5);
    t.Both([&](EKF & e) {e.PredictModel(to); e.AugmentStateIfNeeded(cam, i + 1);});
  }
  if (g.Coin(0.8)) {
    Eigen::MatrixXd p = gen::Spd(g, static_cast<int>(t.a.ekf->GetStateSize()), 1e-6, 1e-1);
    t.Both([&](EKF & e) {SetCov(e, p);});
    c.Label("correlated");
  }
  std::set<unsigned int> moving;
  bool gravity = false;
  int n = g.Int(1, 6);
  for (int k = 0; k < n; ++k) {
    std::string what = "measurement " + std::to_string(k);
    std::vector<unsigned int> ids;
    for (auto & i : t.a.imu) {if (!moving.count(i.first)) {ids.push_back(i.first);}}
    if (ids.empty()) {break;}
    unsigned int id = g.Pick(ids);
    Model m{"IMU " + std::to_string(id)};
    bool gyro = Has(*t.a.ekf, id);
    Values v(t.a.ekf->m_state);
    auto blocks = Blocks(*t.a.ekf);
    Eigen::MatrixXd p0 = Full(t.a.ekf->m_cov, root);
    Meas z;
    z.ra = RandomNoise(g, c, 3, 1e-5, 1e-1);
    z.rw = RandomNoise(g, c, 3, 1e-6, 1e-2);
    Eigen::MatrixXd noise = Eigen::MatrixXd::Zero(gyro ? 6 : 3, gyro ? 6 : 3);
    noise.block<3, 3>(0, 0) = z.ra;
    if (gyro) {noise.block<3, 3>(3, 3) = z.rw;}
    Residual at = [&](const Values & x) {return Eigen::VectorXd(-m.Still(x, gyro));};
    Eigen::MatrixXd h = Jacobian(at, v, blocks, static_cast<int>(p0.rows()));
    Eigen::MatrixXd s0 = h * p0 * h.transpose() + s.params.imu_noise_scale_factor * noise;
    if (!(Condition(s0) < 1e6)) {c.Skip();}
    // a residual of a chosen length in standard deviations
    Eigen::VectorXd dir = gen::VecN(g, static_cast<int>(noise.rows()), 1.0);
    double score = dir.norm() > 1e-3 ? (g.Coin(0.5) ? 1.0 : g.Log(1e-3, 1e3)) * s.params.motion_detection_chi_squared * (g.Coin(0.5) ? 0.9 : 1.1) : 0.0;
    Eigen::VectorXd res = Eigen::VectorXd::Zero(noise.rows());
    if (score > 0) {
      double len = dir.dot(s0.ldlt().solve(dir));
      res = dir * std::sqrt(score / len);
    }
    Eigen::VectorXd h0 = m.Still(v, gyro);
    z.a = h0.segment<3>(0) + res.segment<3>(0);
    z.w = gyro ? Eigen::Vector3d(h0.segment<3>(3) + res.segment<3>(3)) : gen::Vec(g, 1.0);
    z.time = Time(g, *t.a.ekf);
    bool above = score > s.params.motion_detection_chi_squared;
    c.note << "; IMU " << id << " score " << score / s.params.motion_detection_chi_squared << " of the threshold";
    if (above && gravity) {
      // taken as motion: the measurement sets the motion, nothing is corrected to rest
      c.Label("motion");
      Feed(t.a, id, z);
      moving.insert(id);
      Values got(t.a.ekf->m_state);
      if (t.a.imu.size() == 1) {
        Eigen::Vector3d acc = v.rot["body orientation"] * (v.rot[m.n + " orientation"] * (z.a - v.vec[m.n + " accelerometer bias"]));
        CheckNear(c, got.vec["body acceleration"], acc, 1e-8 * (1 + acc.norm()), what + ": motion not taken over");
      }
      c.Check((got.vec["body acceleration"] - G).norm() > 1e-9 || (z.a - m.Still(v, false)).norm() < 1e-6, what + ": still held at rest");
      c.NonTrivial();
      break;
    }
    if (!above) {gravity = true; t.b.ekf->InitializeGravity();}
    c.Label(above ? "unknown" : "rest");
    t.b.ekf->PredictModel(z.time);
    Values pr(t.b.ekf->m_state);
    blocks = Blocks(*t.b.ekf);
    Eigen::MatrixXd p = Full(t.b.ekf->m_cov, root);
    Eigen::VectorXd zz(noise.rows());
    zz.segment<3>(0) = z.a;
    if (gyro) {zz.segment<3>(3) = z.w;}
    Residual r = [&](const Values & x) {return Eigen::VectorXd(zz - m.Still(x, gyro));};
    Expected e = Optimal(pr, pr, blocks, p, r, noise);
    e.v.vec["body acceleration"] = G;
    e.v.vec["body angular velocity"].setZero();
    e.v.vec["body angular acceleration"].setZero();
    Feed(t.a, id, z);
    c.Check(t.a.ekf->IsGravityInitialized() == gravity, what + (gravity ? ": gravity not found by a body at rest" : ": gravity found by a body that is not at rest"));
    if (!(Condition(e.s) < 1e6)) {c.Skip();}
    CheckPosterior(c, *t.a.ekf, e, p, 3e-5, "stationary " + what);
    if (score > 0) {c.NonTrivial();}
    // afterwards the body is at rest
    t.b.ekf->SetZeroAcceleration(true);
    t.Sync();
  }
}

// A single IMU drives the prediction
static void Single(Gen & g, Case & c)
{
  bool root = g.Coin(0.4);
  Sensors s = Setup(g, c, 1);
  Twin t(s, root);
  unsigned int id = t.a.imu.begin()->first;
  Model m{"IMU " + std::to_string(id)};
  StartMoving(g, t, id);
  int n = g.Int(1, 6);
  for (int k = 0; k < n; ++k) {
    if (g.Coin(0.3)) {
      Eigen::MatrixXd p = gen::Spd(g, static_cast<int>(t.a.ekf->GetStateSize()), 1e-4, 1e1);
      t.Both([&](EKF & e) {SetCov(e, p);});
    }
    if (g.Coin(0.3)) {
      BodyState b;
      RandomBody(g, b);
      t.Both([&](EKF & e) {e.m_state.body_state = b;});
    }
    Values v(t.a.ekf->m_state);
    Meas z;
    z.a = gen::Vec(g, 30.0);
    z.w = gen::Vec(g, 5.0);
    z.ra = RandomNoise(g, c, 3, 1e-5, 1e-1);
    z.rw = RandomNoise(g, c, 3, 1e-6, 1e-2);
    z.time = Time(g, *t.a.ekf);
    c.note << "; IMU " << z.time - t.a.ekf->GetCurrentTime();
    // the twin gets the motion and predicts
    BodyState & b = t.b.ekf->m_state.body_state;
    b.acc_b_in_l = v.rot["body orientation"] * (v.rot[m.n + " orientation"] * (z.a - v.vec[m.n + " accelerometer bias"]));
    b.ang_vel_b_in_l = v.rot["body orientation"] * (v.rot[m.n + " orientation"] * (z.w - v.vec[m.n + " gyroscope bias"]));
    b.ang_acc_b_in_l.setZero();
    t.b.ekf->SetZeroAcceleration(false);
    t.b.ekf->PredictModel(z.time);
    Feed(t.a, id, z);
    std::string what = "IMU measurement " + std::to_string(k);
    CheckValues(c, Values(t.a.ekf->m_state), Values(t.b.ekf->m_state), 1e-9, what);
    CheckCov(c, Full(t.a.ekf->m_cov, root), Full(t.b.ekf->m_cov, root), 1e-9, what);
    c.Check(t.a.ekf->GetCurrentTime() == t.b.ekf->GetCurrentTime(), what + ": time");
    t.Sync();
  }
  c.NonTrivial();
}

// Several IMUs correct the motion
static void Several(Gen & g, Case & c)
{
  bool root = g.Coin(0.4);
  Sensors s = Setup(g, c, g.Int(2, 3));
  Twin t(s, root);
  for (auto & i : t.a.imu) {StartMoving(g, t, i.first);}
  auto reset = [&]() {
      BodyState b;
      RandomBody(g, b);
      // the motion estimate the huge first measurements left behind is replaced
      std::map<unsigned int, ImuState> imu;
      for (auto & r : s.regs) {if (r.kind == 0) {imu[r.id] = r.imu;}}
      t.Both([&](EKF & e) {
          e.m_state.body_state = b;
          for (auto & i : imu) {
            auto & x = e.m_state.imu_states.at(i.first);
            x.pos_i_in_b = i.second.pos_i_in_b;
            x.ang_i_to_b = i.second.ang_i_to_b;
            x.acc_bias = i.second.acc_bias;
            x.omg_bias = i.second.omg_bias;
          }
        });
      Eigen::MatrixXd p = gen::Spd(g, static_cast<int>(t.a.ekf->GetStateSize()), 1e-4, 1.0);
      t.Both([&](EKF & e) {SetCov(e, p);});
    };
  reset();
  int n = g.Int(1, 5);
  for (int k = 0; k < n; ++k) {
    if (g.Coin(0.3)) {reset();}
    unsigned int id = PickKey(g, t.a.imu);
    Model m{"IMU " + std::to_string(id)};
    // the sample is compared with the motion at its own time
    Meas z;
    z.time = Time(g, *t.a.ekf);
    t.b.ekf->SetZeroAcceleration(false);
    t.b.ekf->PredictModel(z.time);
    Values v(t.b.ekf->m_state);
    auto blocks = Blocks(*t.b.ekf);
    Eigen::MatrixXd p = Full(t.b.ekf->m_cov, root);
    z.ra = RandomNoise(g, c, 3, 1e-4, 1.0);
    z.rw = RandomNoise(g, c, 3, 1e-5, 1e-1);
    Eigen::MatrixXd noise = Eigen::MatrixXd::Zero(6, 6);
    noise.block<3, 3>(0, 0) = z.ra;
    noise.block<3, 3>(3, 3) = z.rw;
    Eigen::VectorXd zz = m.Moving(v);
    double off = g.Coin(0.1) ? 0.0 : g.Log(1e-3, 1.0);
    zz += off * gen::VecN(g, 6, 1.0);
    z.a = zz.segment<3>(0);
    z.w = zz.segment<3>(3);
    c.note << "; IMU " << id << " off by " << off;
    Residual r = [&](const Values & x) {return Eigen::VectorXd(zz - m.Moving(x));};
    Expected e = Optimal(v, v, blocks, p, r, noise);
    if (!(Condition(e.s) < 1e6)) {c.Skip();}
    // the twin takes the reference update
    Eigen::VectorXd d = e.correction;
    t.b.ekf->m_state += d;
    CheckValues(c, Values(t.b.ekf->m_state), e.v, 1e-9 * (1 + d.norm()), "adding a correction");
    SetCov(*t.b.ekf, 0.5 * (e.p + e.p.transpose()));
    Feed(t.a, id, z);
    std::string what = "IMU measurement " + std::to_string(k);
    Expected w;
    w.v = Values(t.b.ekf->m_state);
    w.p = Full(t.b.ekf->m_cov, root);
    w.correction = d;
    CheckPosterior(c, *t.a.ekf, w, p, 3e-5, what);
    if (off > 0) {c.NonTrivial();}
    t.Sync();
  }
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C14";
  p.rule = "filters with 1-3 IMUs of any mounting and bias and up to 3 other sensors, correlated covariances, any attitude; measurements at a chosen distance above and below the motion threshold, "
    "while moving, late and at the same time; non-trivial: a measurement that differs from the predicted one";
  p.assumptions.push_back("the innovation covariance is conditioned better than 1e6; the body's angular rate is zero while it is held to be stationary; scores within 10 % of the motion threshold are not judged");
  p.Add("stationary", 40000, 800000, Stationary);
  p.Add("single", 30000, 600000, Single);
  p.Add("several", 30000, 600000, Several);
  return pbt::Main(argc, argv, {p});
}
