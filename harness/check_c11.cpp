// C11: finding the local frame from the first GPS fixes
#include "geo.hpp"
#include "updates.hpp"

using namespace updates;

struct Fit
{
  double ang, pos_dev, ang_dev, spread, span;
  bool ang_dev_known;
  Eigen::Matrix3d r;
  Eigen::Vector3d t;
  Eigen::Vector3d center;
  std::vector<Eigen::Vector3d> enu;
};

// Least-squares heading and translation from east-north-up to local positions
static Fit Align(const std::vector<Eigen::Vector3d> & llas, const std::vector<Eigen::Vector3d> & local)
{
  Fit f;
  size_t n = llas.size();
  ref::V3 mean = ref::V3::Zero();
  for (auto & l : llas) {mean += geo::Ecef(l) / static_cast<double>(n);}
  f.center = ecef_to_lla(mean.cast<double>());
  ref::V3 origin = geo::Ecef(f.center);
  for (auto & l : llas) {f.enu.push_back((geo::Axes(f.center) * (geo::Ecef(l) - origin)).cast<double>());}
  Eigen::Vector3d me(0, 0, 0), ml(0, 0, 0);
  for (size_t i = 0; i < n; ++i) {me += f.enu[i] / n; ml += local[i] / n;}
  double dot = 0, cross = 0, ss = 0;
  for (size_t i = 0; i < n; ++i) {
    Eigen::Vector3d a = f.enu[i] - me, b = local[i] - ml;
    dot += a.x() * b.x() + a.y() * b.y();
    cross += a.x() * b.y() - a.y() * b.x();
    ss += a.head<2>().norm() * b.head<2>().norm();
  }
  f.ang = std::atan2(cross, dot);
  f.spread = ss > 0 ? std::hypot(dot, cross) / ss : 0;
  f.r = Eigen::AngleAxisd(f.ang, Eigen::Vector3d::UnitZ()).toRotationMatrix();
  f.t = ml - f.r * me;
  double sum = 0, slopes = 0, count = 0;
  Eigen::Vector3d mean_err(0, 0, 0);
  for (size_t i = 0; i < n; ++i) {mean_err += (local[i] - f.r * f.enu[i] - f.t) / n;}
  for (size_t i = 0; i < n; ++i) {
    Eigen::Vector3d e = local[i] - f.r * f.enu[i] - f.t;
    sum += (e - mean_err).squaredNorm();
    double base = (local[i] - ml).norm();
    if (base > e.norm()) {slopes += std::pow(e.norm() / base, 2); count += 1;}
  }
  f.pos_dev = std::sqrt(sum) / n;
  f.ang_dev_known = count > 0;
  f.ang_dev = count > 0 ? std::sqrt(slopes) / count : 0;
  f.span = 0;
  for (size_t i = 0; i < n; ++i) {
    for (size_t j = 0; j < i; ++j) {f.span = std::max(f.span, (f.enu[i] - f.enu[j]).head<2>().norm());}
  }
  return f;
}

static void Frame(Gen & g, Case & c)
{
  bool root = g.Coin(0.4);
  Limits lim;
  lim.max_sensors = 3;
  Sensors s = RandomSensors(g, c, lim);
  bool have = false;
  for (auto & r : s.regs) {have = have || r.kind == 1;}
  if (!have) {
    Sensors::Reg r;
    r.kind = 1;
    r.id = g.UInt(1, 9);
    r.gps = RandomGps(g);
    r.cov = RandomCov(g, 3, true);
    s.regs.push_back(r);
  }
  bool baseline = g.Coin();
  s.params.gps_init_type = baseline ? GpsInitType::BASELINE_DIST : GpsInitType::ERROR_THRESHOLD;
  s.params.gps_init_baseline_dist = g.Real(3.0, 200.0);
  s.params.gps_init_pos_thresh = g.Log(1e-2, 3.0);
  s.params.gps_init_ang_thresh = g.Log(1e-3, 0.5);
  s.params.pos_e_in_g.setZero();
  s.params.ang_l_to_e = 0;
  s.params.use_first_estimate_jacobian = false;
  Eigen::Vector3d origin(g.Real(-75.0, 75.0), g.Real(-180.0, 180.0), g.Real(-100.0, 3000.0));
  double heading = g.Coin(0.1) ? 0.0 : g.Real(-M_PI, M_PI);
  double noise = g.Coin(0.4) ? 0.0 : g.Log(1e-2, 3.0);
  double scale = g.Log(3.0, 300.0);
  Eigen::Vector3d away = gen::Vec(g, 1.0) * (g.Coin(0.5) ? 0.0 : g.Log(1.0, 300.0));
  Twin t(s, root);
  bool gravity = g.Coin(0.7);
  t.Both([&](EKF & e) {if (gravity) {e.InitializeGravity();}});
  if (g.Coin(0.7)) {
    Eigen::MatrixXd p = gen::Spd(g, static_cast<int>(t.a.ekf->GetStateSize()), 1e-3, 1.0);
    t.Both([&](EKF & e) {SetCov(e, p);});
  }
  c.note << (root ? "root " : "standard ") << (baseline ? "baseline " : "error ");
  if (baseline) {
    c.note << s.params.gps_init_baseline_dist << " m";
  } else {
    c.note << s.params.gps_init_pos_thresh << " m " << s.params.gps_init_ang_thresh << " rad";
  }
  c.note << ", origin " << origin.transpose() << " heading " << heading << " noise " << noise << " scale " << scale << " away " << away.norm();
  std::vector<Eigen::Vector3d> llas, local;
  std::set<unsigned int> used;
  int n = g.Int(3, 14);
  bool still = g.Coin(0.1);
  Eigen::Vector3d at0 = away + gen::Vec(g, scale);
  Eigen::Quaterniond q0 = gen::Quat(g);
  if (still) {c.note << " standing still";}
  bool done = false;
  double reach = 0;
  for (int i = 0; i < n && !done; ++i) {
    unsigned int id = g.Coin(0.8) ? t.a.gps.begin()->first : PickKey(g, t.a.gps);
    used.insert(id);
    std::string name = "GPS " + std::to_string(id) + " antenna";
    Eigen::Vector3d at = still ? at0 : Eigen::Vector3d(away + gen::Vec(g, scale));
    Eigen::Quaterniond q = still ? q0 : gen::Quat(g);
    t.Both([&](EKF & e) {
        e.m_state.body_state.pos_b_in_l = at;
        e.m_state.body_state.ang_b_to_l = q;
        e.m_state.body_state.vel_b_in_l.setZero();
        e.m_state.body_state.acc_b_in_l = g_gravity;
        e.m_state.body_state.ang_vel_b_in_l.setZero();
      });
    double time = t.a.ekf->GetCurrentTime() + g.Log(1e-3, 1.0);
    t.b.ekf->PredictModel(time);
    Values v(t.b.ekf->m_state);
    auto blocks = Blocks(*t.b.ekf);
    Eigen::MatrixXd p = Full(t.b.ekf->m_cov, root);
    Eigen::Vector3d ant = v.vec["body position"] + v.rot["body orientation"] * v.vec[name];
    reach = std::max(reach, ant.norm());
    Eigen::Vector3d lla = enu_to_lla(local_to_enu(Eigen::Vector3d(ant + noise * gen::Vec(g, 1.0)), heading), origin);
    llas.push_back(lla);
    local.push_back(ant);
    Eigen::MatrixXd r = RandomNoise(g, c, 3, 1e-4, 10.0);
    t.a.gps.at(id)->UpdateEKF(*t.a.ekf, time, lla, r);
    bool known = t.a.ekf->IsLlaInitialized();
    Fit f = Align(llas, local);
    std::string what = "fix " + std::to_string(i + 1);
    if (i < 3) {
      c.Check(!known, what + ": frame fixed with fewer than four fixes");
    } else if (baseline) {
      // distances are taken in whole metres
      if (f.span < s.params.gps_init_baseline_dist - 3.0) {c.Check(!known, what + ": frame fixed before the baseline was reached, span " + std::to_string(f.span));}
      if (f.span > s.params.gps_init_baseline_dist + 3.0) {c.Check(known, what + ": frame not fixed with a span of " + std::to_string(f.span));}
    } else {
      double limit = std::tan(s.params.gps_init_ang_thresh);
      std::string dev = ", deviations " + std::to_string(f.pos_dev) + " m " + std::to_string(f.ang_dev);
      // the deviation of exactly matching or coinciding fixes is rounding
      bool fine = f.span > 0.1 && f.ang_dev > 1e-6;
      if (f.pos_dev > 1.02 * s.params.gps_init_pos_thresh || (fine && f.ang_dev_known && f.ang_dev > 1.02 * limit)) {
        c.Check(!known, what + ": frame fixed with deviations above the thresholds" + dev);
        c.Label("refused");
      }
      if (fine && f.ang_dev_known && f.pos_dev < 0.98 * s.params.gps_init_pos_thresh && f.ang_dev < 0.98 * limit) {
        c.Check(known, what + ": frame not fixed with deviations below the thresholds" + dev);
      }
    }
    if (!baseline && still && noise > 0 && used.size() == 1) {
      c.Check(!known, what + ": frame fixed without any motion to tell its heading");
      c.Label("still");
    }
    if (!known) {
      CheckValues(c, Values(t.a.ekf->m_state), v, 0, what + " without a frame");
      CheckCov(c, Full(t.a.ekf->m_cov, root), p, 1e-12, what + " without a frame");
      continue;
    }
    done = true;
    // the fit is determined
    if (!(f.spread > 1e-3) || !(f.span > 0.1)) {c.Skip();}
    Eigen::Vector3d lla_ref = t.a.ekf->GetReferenceLLA();
    double ang = t.a.ekf->GetReferenceAngle();
    // the tangent plane moves with the reference
    double moved = (geo::Ecef(lla_ref) - geo::Ecef(f.center)).cast<double>().norm();
    double tol = 1e-3 + 3 * (moved + f.span) * (moved + f.span) / 6.3e6 * (1 + std::tan(std::abs(lla_ref(0)) * M_PI / 180));
    Eigen::VectorXd res(3 * llas.size());
    for (size_t j = 0; j < llas.size(); ++j) {
      Eigen::Vector3d got = geo::Local(llas[j], lla_ref, ang);
      Eigen::Vector3d want = f.r * f.enu[j] + f.t;
      res.segment<3>(3 * j) = got - local[j];
      c.Check((got - want).norm() < tol, what + ": fix " + std::to_string(j + 1) + " lies " + std::to_string((got - want).norm()) + " m from its place in the best-fitting frame");
      if (noise == 0) {
        c.Check((got - local[j]).norm() < tol, what + ": fix " + std::to_string(j + 1) + " lies " + std::to_string((got - local[j]).norm()) + " m from the antenna");
      }
    }
    c.Label(baseline ? "baseline" : "threshold");
    if (noise == 0) {c.Label("exact");}
    if (std::abs(heading) > 0.1) {c.NonTrivial();}
    if (used.size() > 1) {c.Label("several_antennas"); continue;}
    // all fixes correct the state in one update, with a metre of noise
    Residual rr = [&](const Values & x) {
        Eigen::Vector3d now = x.vec.at("body position") + x.rot.at("body orientation") * x.vec.at(name);
        Eigen::VectorXd out(res.size());
        for (size_t j = 0; j < llas.size(); ++j) {out.segment<3>(3 * j) = res.segment<3>(3 * j) + ant - now;}
        return out;
      };
    Expected e = Optimal(v, v, blocks, p, rr, Eigen::MatrixXd::Identity(res.size(), res.size()));
    if (!(Condition(e.s) < 1e6)) {c.Skip();}
    CheckPosterior(c, *t.a.ekf, e, p, 2e-5, what);
  }
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C11";
  p.rule = "3-14 fixes by one or more antennas of a body at random poses 3-300 m apart and up to 300 m from the local origin, any heading, exact or with up to 3 m noise, both ways of deciding, both covariance forms; "
    "non-trivial: a frame with a heading of more than 0.1 rad was found";
  p.assumptions.push_back("latitudes within 75 degrees; thresholds are not judged within 3 m (baseline) or 2 % (errors); curvature of the Earth over the fixes is tolerated");
  p.Add("frame", 60000, 1000000, Frame);
  return pbt::Main(argc, argv, {p});
}
