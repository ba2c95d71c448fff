// C13: fiducial board updates
#include "updates.hpp"

using namespace updates;

static Sensors Setup(Gen & g, Case & c)
{
  Limits lim;
  lim.max_sensors = 4;
  Sensors s = RandomSensors(g, c, lim);
  bool fid = false, cam = false;
  for (auto & r : s.regs) {fid = fid || r.kind == 3; cam = cam || r.kind == 2;}
  if (!cam) {
    Sensors::Reg r;
    r.kind = 2;
    r.id = g.UInt(1, 9);
    r.cam = RandomCam(g);
    r.cov = RandomCov(g, 6, true);
    s.regs.push_back(r);
    c.note << "camera " << r.id << (r.cam.GetIsExtrinsic() ? "e " : " ");
  }
  if (!fid) {
    Sensors::Reg r;
    r.kind = 3;
    r.id = g.UInt(1, 9);
    r.fid = RandomFid(g);
    r.fid.id = r.id;
    r.cov = RandomCov(g, 6, true);
    s.regs.push_back(r);
    c.note << "fiducial " << r.id << (r.fid.GetIsExtrinsic() ? "e " : " ");
  }
  return s;
}
static Eigen::Quaterniond Small(Gen & g, double a)
{
  Eigen::Vector3d r = gen::UnitVec(g);
  return Eigen::Quaterniond(Eigen::AngleAxisd(a, r));
}

struct Board
{
  std::string cam, fid;
  Eigen::Vector3d Pos(const Values & x) const
  {
    return x.rot.at(cam + " orientation").inverse() * (x.rot.at("body orientation").inverse() *
           (x.vec.at(fid + " position") - x.vec.at("body position")) - x.vec.at(cam + " position"));
  }
  Eigen::Quaterniond Ang(const Values & x) const
  {
    return (x.rot.at("body orientation") * x.rot.at(cam + " orientation")).inverse() * x.rot.at(fid + " orientation");
  }
};

static void Update(Gen & g, Case & c)
{
  bool root = g.Coin(0.4);
  Sensors s = Setup(g, c);
  s.params.use_first_estimate_jacobian = g.Coin(0.3);
  Twin t(s, root);
  Warm(g, c, t, 1e-4, 1.0);
  std::map<std::pair<unsigned int, unsigned int>, Values> first;
  int n = g.Int(1, 4);
  for (int k = 0; k < n; ++k) {
    unsigned int fid = PickKey(g, t.a.ekf->m_state.fid_states), cam = PickKey(g, t.a.msckf);
    Board m{"camera " + std::to_string(cam), "fiducial " + std::to_string(fid)};
    double time = Time(g, *t.a.ekf);
    t.b.ekf->PredictModel(time);
    Values v(t.b.ekf->m_state);
    auto blocks = Blocks(*t.b.ekf);
    Eigen::MatrixXd p = Full(t.b.ekf->m_cov, root);
    if (!first.count({fid, cam})) {first[{fid, cam}] = v;}
    Eigen::MatrixXd noise = RandomNoise(g, c, 6, 1e-4, 1.0, true);
    bool exact = g.Coin(0.1);
    Eigen::Vector3d off = exact ? Eigen::Vector3d(0, 0, 0) : Eigen::Vector3d(gen::Vec(g, 1.0) * g.Log(1e-3, 3.0));
    double turn = exact ? 0.0 : g.Log(1e-3, 1.5);
    BoardDetection d;
    d.frame_time = time;
    d.pos_f_in_c = m.Pos(v) + off;
    d.ang_f_to_c = Small(g, turn) * m.Ang(v);
    if (g.Coin(0.3)) {d.ang_f_to_c.coeffs() = -d.ang_f_to_c.coeffs();}
    d.pos_error = noise.diagonal().segment<3>(0);
    d.ang_error = noise.diagonal().segment<3>(3);
    // The orientation error is a rotation vector in the camera frame
    ref::M3 meas = ref::Rot(d.ang_f_to_c);
    Residual r = [&](const Values & x) {
        Eigen::VectorXd o(6);
        o.segment<3>(0) = d.pos_f_in_c - m.Pos(x);
        o.segment<3>(3) = ref::Log(ref::M3(meas * ref::Rot(m.Ang(x)).transpose())).cast<double>();
        return o;
      };
    Values lin = v;
    if (s.params.use_first_estimate_jacobian) {
      Values & f = first[{fid, cam}];
      for (auto & q : {m.cam, m.fid}) {
        lin.vec[q + " position"] = f.vec[q + " position"];
        lin.rot[q + " orientation"] = f.rot[q + " orientation"];
      }
    }
    Expected e;
    {
      // Sensitivity of the predicted board pose itself: the measured orientation taken as the predicted one
      Eigen::Quaterniond q0 = m.Ang(lin);
      ref::M3 r0 = ref::Rot(q0);
      Residual at = [&](const Values & x) {
          Eigen::VectorXd o(6);
          o.segment<3>(0) = d.pos_f_in_c - m.Pos(x);
          o.segment<3>(3) = ref::Log(ref::M3(r0 * ref::Rot(m.Ang(x)).transpose())).cast<double>();
          return o;
        };
      e = Optimal(v, lin, blocks, p, at, noise);
      e.residual = r(v);
      e.correction = p * e.h.transpose() * e.s.inverse() * e.residual;
      e.v = Plus(v, blocks, e.correction);
    }
    c.note << "; board " << fid << " by " << cam << " off by " << off.norm() << " m, " << turn << " rad";
    t.a.Fid(fid, cam).UpdateEKF(*t.a.ekf, time, d);
    if (!(Condition(e.s) < 1e6)) {c.Skip();}
    CheckPosterior(c, *t.a.ekf, e, p, 2e-5, "fiducial update " + std::to_string(k));
    if (!exact) {c.NonTrivial();}
    if (s.params.use_first_estimate_jacobian && k > 0) {c.Label("first_estimate");}
    t.Sync();
  }
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C13";
  p.rule = "filters with up to 6 sensors, up to 4 clones and correlated covariances, any body, camera and board attitude, 1-4 detections each, offsets up to 3 m and 1.5 rad; "
    "non-trivial: a detection away from the predicted board pose";
  p.assumptions.push_back("the innovation covariance is conditioned better than 1e6");
  p.Add("update", 40000, 800000, Update);
  return pbt::Main(argc, argv, {p});
}
