// C17: feature-track (MSCKF) updates
#include "updates.hpp"

using namespace updates;

struct Pose
{
  Eigen::Vector3d p;
  Eigen::Quaterniond q;
};
static Eigen::Quaterniond Exp(const Eigen::Vector3d & r)
{
  double t = r.norm();
  double k = t > 1e-12 ? std::sin(t / 2) / t : 0.5;
  return Eigen::Quaterniond(std::cos(t / 2), k * r(0), k * r(1), k * r(2));
}
static Pose Move(const Pose & a, const Eigen::Matrix<double, 6, 1> & d)
{
  return Pose{a.p + d.head<3>(), a.q * Exp(d.tail<3>())};
}
// Normalised, distorted image coordinates of a point
static Eigen::Vector2d Image(const Pose & body, const Pose & cam, const Eigen::Vector3d & f, const Intrinsics & k)
{
  Eigen::Vector3d p = cam.q.inverse() * (body.q.inverse() * (f - body.p) - cam.p);
  double x = p.x() / p.z(), y = p.y() / p.z(), r2 = x * x + y * y, rad = 1 + k.k_1 * r2 + k.k_2 * r2 * r2;
  return Eigen::Vector2d(x * rad + 2 * k.p_1 * x * y + k.p_2 * (r2 + 2 * x * x), y * rad + k.p_1 * (r2 + 2 * y * y) + 2 * k.p_2 * x * y);
}
static double Depth(const Pose & body, const Pose & cam, const Eigen::Vector3d & f)
{
  return (cam.q.inverse() * (body.q.inverse() * (f - body.p) - cam.p)).z();
}

static void Update(Gen & g, Case & c)
{
  bool root = g.Coin(0.4);
  Limits lim;
  lim.max_sensors = 3;
  Sensors s = RandomSensors(g, c, lim);
  s.params.augmenting_type = g.Pick(std::vector<AugmentationType>{AugmentationType::ALL, AugmentationType::PRIMARY, AugmentationType::TIME, AugmentationType::ERROR});
  s.params.augmenting_delta_time = g.Log(0.05, 0.5);
  s.params.augmenting_pos_error = g.Log(1e-3, 0.1);
  s.params.augmenting_ang_error = g.Log(1e-3, 0.1);
  s.params.use_first_estimate_jacobian = g.Coin(0.25);
  s.track_length = g.UInt(2, 7);
  bool have = false;
  for (auto & r : s.regs) {have = have || r.kind == 2;}
  if (!have) {
    Sensors::Reg r;
    r.kind = 2;
    r.id = g.UInt(1, 9);
    r.cam = RandomCam(g);
    r.cov = RandomCov(g, 6, true);
    s.regs.push_back(r);
    c.note << "camera " << r.id << (r.cam.GetIsExtrinsic() ? "e " : " ");
  }
  bool lens = g.Coin(0.5);
  for (auto & r : s.regs) {
    if (r.kind != 2) {continue;}
    Intrinsics & k = r.cam.intrinsics;
    k.pixel_size = g.Log(1e-6, 1e-5);
    k.f_x = k.pixel_size * g.Real(300.0, 2000.0);
    k.f_y = k.pixel_size * g.Real(300.0, 2000.0);
    k.width = g.Int(200, 2000);
    k.height = g.Int(200, 2000);
    if (lens) {k.k_1 = g.Sym(0.1); k.k_2 = g.Sym(0.02); k.p_1 = g.Sym(0.01); k.p_2 = g.Sym(0.01);}
  }
  double min_dist = 0.1;
  Twin t(s, root);
  t.Both([&](EKF & e) {e.InitializeGravity(); e.SetZeroAcceleration(g.Coin(0.0));});
  unsigned int frame = 1;
  int rounds = g.Int(1, 2);
  std::map<unsigned int, Pose> first;
  static const char * aug[] = {"NONE", "ALL", "PRIMARY", "TIME", "ERROR"};
  c.note << (root ? "root " : "standard ") << aug[static_cast<int>(s.params.augmenting_type)] << " ";
  std::map<unsigned int, std::vector<std::pair<unsigned int, double>>> seen;
  for (int round = 0; round < rounds; ++round) {
    unsigned int cam = PickKey(g, t.a.msckf);
    int frames = g.Int(2, 6);
    for (int i = 0; i < frames; ++i) {
      unsigned int id = g.Coin(0.6) ? cam : PickKey(g, t.a.msckf);
      double to = t.a.ekf->GetCurrentTime() + g.Log(1e-2, 0.3);
      BodyState b;
      RandomBody(g, b, 0.3);
      t.Both([&](EKF & e) {
          b.pos_b_in_l = e.m_state.body_state.pos_b_in_l;
          b.ang_b_to_l = e.m_state.body_state.ang_b_to_l;
          b.index = e.m_state.body_state.index;
          e.m_state.body_state = b;
          e.PredictModel(to);
          e.AugmentStateIfNeeded(id, frame);
        });
      seen[id].push_back({frame++, to});
    }
    if (g.Coin(0.8)) {
      Eigen::MatrixXd p = g.Log(1.0, 300.0) * gen::Spd(g, static_cast<int>(t.a.ekf->GetStateSize()), 1e-3, 1.0);
      t.Both([&](EKF & e) {SetCov(e, p);});
      c.Label("correlated");
    }
    double time = t.a.ekf->GetCurrentTime() + (g.Coin(0.5) ? 0.0 : g.Log(1e-3, 0.1));
    t.b.ekf->PredictModel(time);
    EKF & ekf = *t.b.ekf;
    auto blocks = Blocks(ekf);
    Eigen::MatrixXd p = Full(ekf.m_cov, root);
    Values v(ekf.m_state);
    int n = static_cast<int>(p.rows());
    const CamState & cs = ekf.m_state.cam_states.at(cam);
    Pose pose_c{cs.pos_c_in_b, cs.ang_c_to_b};
    if (!first.count(cam)) {first[cam] = pose_c;}
    Pose lin_c = s.params.use_first_estimate_jacobian ? first[cam] : pose_c;
    bool by_frame = s.params.augmenting_type == AugmentationType::ALL || (s.params.augmenting_type == AugmentationType::PRIMARY && cam == t.a.primary);
    unsigned int key = s.params.augmenting_type == AugmentationType::ALL ? cam : (s.params.augmenting_type == AugmentationType::PRIMARY ? t.a.primary : 0);
    auto list = ekf.m_state.aug_states[key];
    if (list.empty()) {c.Skip();}
    // frames that can be looked up
    std::vector<std::pair<unsigned int, double>> times;
    for (auto & f : seen[cam]) {
      bool ok = !by_frame;
      for (auto & a : list) {ok = ok || a.frame_id == f.first;}
      if (ok) {times.push_back(f);}
    }
    if (!by_frame && g.Coin(0.5)) {
      int extra = g.Int(1, 4);
      double from = list.front().time, to = ekf.GetCurrentTime();
      for (int i = 0; i < extra; ++i) {times.push_back({frame++, from + g.Unit() * (to - from)});}
    }
    if (times.empty()) {c.Skip();}
    const Intrinsics & k = cs.intrinsics;
    bool truth = lens || g.Coin(0.5);
    FeatureTracks tracks;
    double px = g.Log(0.1, 5.0);
    double sigma = std::max(px, 0.5);
    Eigen::MatrixXd big_h = Eigen::MatrixXd::Zero(0, n);
    Eigen::VectorXd big_r(0);
    int nt = g.Int(1, 5), used = 0;
    bool interpolated = false;
    double noise_px = g.Coin(0.2) ? 0.0 : g.Log(1e-1, 300.0);
    for (int i = 0; i < nt; ++i) {
      AugState base = ekf.GetAugState(cam, times[0].first, times[0].second);
      Eigen::Vector3d in_c(g.Sym(0.6), g.Sym(0.6), 1.0);
      in_c *= g.Real(2.0, 20.0);
      Eigen::Vector3d f = base.ang_b_to_l * (pose_c.q * in_c + pose_c.p) + base.pos_b_in_l;
      FeatureTrack ft;
      if (truth) {ft.true_feature_position = f;}
      std::vector<AugState> at;
      int want = g.Coin(0.1) ? 1 : static_cast<int>(times.size());
      for (auto & ti : times) {
        if (static_cast<int>(ft.track.size()) >= want) {break;}
        AugState a = ekf.GetAugState(cam, ti.first, ti.second);
        Pose b{a.pos_b_in_l, a.ang_b_to_l};
        if (Depth(b, pose_c, f) < 0.5) {continue;}
        Eigen::Vector2d xy = Image(b, pose_c, f, k);
        if (!(xy.norm() < 3.0)) {continue;}
        FeaturePoint fp;
        fp.frame_id = ti.first;
        fp.frame_time = ti.second;
        fp.key_point.class_id = i;
        fp.key_point.pt.x = static_cast<float>(xy(0) * k.f_x / k.pixel_size + k.width / 2 + noise_px * g.Sym(1.0));
        fp.key_point.pt.y = static_cast<float>(xy(1) * k.f_y / k.pixel_size + k.height / 2 + noise_px * g.Sym(1.0));
        ft.track.push_back(fp);
        at.push_back(a);
      }
      if (ft.track.empty()) {continue;}
      tracks.push_back(ft);
      int m = static_cast<int>(ft.track.size());
      if (m < 2) {c.Label("single_observation"); continue;}
      std::vector<Eigen::Vector2d> z;
      for (auto & fp : ft.track) {
        z.push_back(Eigen::Vector2d(
            (static_cast<double>(fp.key_point.pt.x) - k.width / 2) / (k.f_x / k.pixel_size),
            (static_cast<double>(fp.key_point.pt.y) - k.height / 2) / (k.f_y / k.pixel_size)));
      }
      if (!truth) {
        // closest point to all rays
        c.Label("triangulated");
        Eigen::Matrix3d aa = Eigen::Matrix3d::Zero();
        Eigen::Vector3d bb = Eigen::Vector3d::Zero();
        for (int o = 0; o < m; ++o) {
          Eigen::Vector3d ray = at[o].ang_b_to_l * (lin_c.q * Eigen::Vector3d(z[o](0), z[o](1), 1.0));
          ray.normalize();
          Eigen::Vector3d ctr = at[o].pos_b_in_l + at[o].ang_b_to_l * lin_c.p;
          Eigen::Matrix3d pr = Eigen::Matrix3d::Identity() - ray * ray.transpose();
          aa += pr;
          bb += pr * ctr;
        }
        Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d> es(aa);
        if (!(es.eigenvalues()(0) > 1e-6 * es.eigenvalues()(2))) {c.Skip();}
        f = aa.ldlt().solve(bb);
        double z0 = Depth(Pose{at[0].pos_b_in_l, at[0].ang_b_to_l}, lin_c, f);
        if (std::abs(z0 - min_dist) < 1e-3 || std::abs(z0 - 100.0) < 0.1) {c.Skip();}
        if (z0 < min_dist || z0 > 100.0) {c.Label("out_of_bounds"); continue;}
      }
      Eigen::MatrixXd hf(2 * m, 3), hc = Eigen::MatrixXd::Zero(2 * m, n);
      Eigen::VectorXd res(2 * m);
      for (int o = 0; o < m; ++o) {
        Pose b{at[o].pos_b_in_l, at[o].ang_b_to_l};
        if (std::abs(Depth(b, pose_c, f)) < 0.2 || std::abs(Depth(b, lin_c, f)) < 0.2) {c.Skip();}
        res.segment<2>(2 * o) = z[o] - Image(b, pose_c, f, k);
        double d = 1e-5;
        auto diff = [&](const std::function<Eigen::Vector2d(double)> & fn) {return Eigen::Vector2d((fn(d) - fn(-d)) / (2 * d));};
        Eigen::Matrix<double, 2, 6> hp;
        for (int j = 0; j < 6; ++j) {
          hp.col(j) = diff([&](double e) {Eigen::Matrix<double, 6, 1> x = Eigen::Matrix<double, 6, 1>::Zero(); x(j) = e; return Image(Move(b, x), lin_c, f, k);});
        }
        for (int j = 0; j < 3; ++j) {
          hf.block<2, 1>(2 * o, j) = diff([&](double e) {Eigen::Vector3d x = f; x(j) += e; return Image(b, lin_c, x, k);});
        }
        if (cs.GetIsExtrinsic()) {
          for (int j = 0; j < 6; ++j) {
            hc.block<2, 1>(2 * o, cs.index + j) = diff([&](double e) {Eigen::Matrix<double, 6, 1> x = Eigen::Matrix<double, 6, 1>::Zero(); x(j) = e; return Image(b, Move(lin_c, x), f, k);});
          }
        }
        // the pose depends on the clones around the observation
        size_t idx = list.size();
        for (size_t q = 0; q < list.size(); ++q) {if (list[q].index == at[o].index) {idx = q;}}
        c.Check(idx < list.size(), "pose look-up does not name a clone");
        double al = at[o].alpha;
        hc.block<2, 6>(2 * o, list[idx].index) += (1 - al) * hp;
        if (al > 0) {
          interpolated = true;
          if (idx + 1 < list.size()) {
            hc.block<2, 6>(2 * o, list[idx + 1].index) += al * hp;
            c.Label("between_clones");
          } else {
            hc.block<2, 3>(2 * o, 0) += al * hp.leftCols<3>();
            hc.block<2, 3>(2 * o, 9) += al * hp.rightCols<3>();
            c.Label("clone_to_body");
          }
        }
      }
      Eigen::JacobiSVD<Eigen::MatrixXd> svd(hf, Eigen::ComputeFullU);
      if (!(svd.singularValues()(2) > 1e-5 * svd.singularValues()(0))) {c.Skip();}
      Eigen::MatrixXd nul = svd.matrixU().rightCols(2 * m - 3).transpose();
      Eigen::MatrixXd h2(big_h.rows() + nul.rows(), n);
      h2 << big_h, nul * hc;
      Eigen::VectorXd r2(big_r.size() + nul.rows());
      r2 << big_r, nul * res;
      big_h = h2;
      big_r = r2;
      ++used;
    }
    if (tracks.empty()) {c.Skip();}
    c.note << "; " << tracks.size() << " tracks by " << cam << (truth ? "" : " triangulated") << " noise " << noise_px << " px";
    t.a.msckf.at(cam)->UpdateEKF(*t.a.ekf, time, tracks, px);
    Expected e;
    e.v = v;
    e.p = p;
    e.correction = Eigen::VectorXd::Zero(n);
    std::string what = "feature update " + std::to_string(round);
    // one combined equation alone is left unused by the filter; either is accepted
    if (big_r.size() == 1) {c.Skip();}
    if (big_r.size() > 1) {
      e.s = big_h * p * big_h.transpose() + sigma * sigma * Eigen::MatrixXd::Identity(big_r.size(), big_r.size());
      if (!(Condition(e.s) < 1e6)) {c.Skip();}
      Eigen::MatrixXd gain = p * big_h.transpose() * e.s.inverse();
      e.correction = gain * big_r;
      if (!(e.correction.norm() < 100.0)) {c.Skip();}
      e.v = Plus(v, blocks, e.correction);
      Eigen::MatrixXd a = Eigen::MatrixXd::Identity(n, n) - gain * big_h;
      e.p = a * p * a.transpose() + sigma * sigma * gain * gain.transpose();
    }
    CheckPosterior(c, *t.a.ekf, e, p, 3e-5, what);
    if (used > 0 && noise_px > 0) {
      // judged on how much the update matters
      if (e.correction.norm() > 1e-3) {c.NonTrivial();}
      c.Label("updated");
      if (interpolated) {c.Label("interpolated");}
    }
    t.Sync();
  }
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C17";
  p.rule = "1-5 tracks of 1-7 observations by cameras of any mounting, focal length and distortion, over clones of a moving body under all cloning policies, with a known or triangulated feature position, "
    "pixel errors up to 300 px, correlated covariances, both covariance forms; non-trivial: a correction larger than 1e-3";
  p.assumptions.push_back("features are at least 0.5 m in front of the camera; every frame of a track can be looked up; the tracks determine the feature (condition better than 1e5); triangulated features are seen without lens distortion");
  p.Add("update", 40000, 800000, Update);
  return pbt::Main(argc, argv, {p});
}
