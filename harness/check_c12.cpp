// C12: GPS updates
#include "geo.hpp"
#include "updates.hpp"

using namespace updates;

static void Update(Gen & g, Case & c)
{
  bool root = g.Coin(0.4);
  Limits lim;
  lim.max_sensors = 4;
  Sensors s = RandomSensors(g, c, lim);
  bool have = false;
  for (auto & r : s.regs) {have = have || r.kind == 1;}
  if (!have) {
    Sensors::Reg r;
    r.kind = 1;
    r.id = g.UInt(1, 9);
    r.gps = RandomGps(g);
    r.cov = RandomCov(g, 3, true);
    s.regs.push_back(r);
    c.note << "GPS " << r.id << (r.gps.GetIsExtrinsic() ? "e " : " ");
  }
  s.params.use_first_estimate_jacobian = g.Coin(0.3);
  Twin t(s, root);
  Warm(g, c, t);
  std::map<unsigned int, Eigen::Vector3d> first;
  int n = g.Int(1, 4);
  for (int k = 0; k < n; ++k) {
    unsigned int id = PickKey(g, t.a.gps);
    std::string name = "GPS " + std::to_string(id) + " antenna";
    double time = Time(g, *t.a.ekf);
    t.b.ekf->PredictModel(time);
    Values v(t.b.ekf->m_state);
    auto blocks = Blocks(*t.b.ekf);
    Eigen::MatrixXd p = Full(t.b.ekf->m_cov, root);
    if (!first.count(id)) {first[id] = v.vec[name];}
    Eigen::MatrixXd noise = RandomNoise(g, c, 3, 1e-4, 1e2);
    Eigen::Vector3d off = g.Coin(0.1) ? Eigen::Vector3d(0, 0, 0) : Eigen::Vector3d(gen::Vec(g, 1.0) * g.Log(1e-2, 20.0));
    Eigen::Vector3d at = v.vec["body position"] + v.rot["body orientation"] * v.vec[name] + off;
    Eigen::Vector3d lla = enu_to_lla(local_to_enu(at, s.params.ang_l_to_e), s.params.pos_e_in_g);
    Eigen::Vector3d z = geo::Local(lla, s.params.pos_e_in_g, s.params.ang_l_to_e);
    Residual r = [&](const Values & x) {
        return Eigen::VectorXd(z - (x.vec.at("body position") + x.rot.at("body orientation") * x.vec.at(name)));
      };
    Values lin = v;
    if (s.params.use_first_estimate_jacobian) {lin.vec[name] = first[id];}
    Expected e = Optimal(v, lin, blocks, p, r, noise);
    c.note << "; GPS " << id << " off by " << off.norm() << " noise " << std::sqrt(noise(0, 0));
    t.a.gps.at(id)->UpdateEKF(*t.a.ekf, time, lla, noise);
    if (!(Condition(e.s) < 1e6)) {c.Skip();}
    CheckPosterior(c, *t.a.ekf, e, p, 2e-5, "GPS update " + std::to_string(k));
    c.Check(t.a.ekf->GetReferenceLLA() == s.params.pos_e_in_g && t.a.ekf->GetReferenceAngle() == s.params.ang_l_to_e, "the reference of the local frame changed");
    if (off.norm() > 0) {c.NonTrivial();}
    if (s.params.use_first_estimate_jacobian && k > 0) {c.Label("first_estimate");}
    t.Sync();
  }
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C12";
  p.rule = "filters with up to 5 sensors, up to 4 clones and correlated covariances, any attitude, 1-4 fixes each on time, at the current time or late, offsets 0-20 m, noise 1 cm-10 m; "
    "non-trivial: a fix away from the predicted antenna position";
  p.assumptions.push_back("the innovation covariance is conditioned better than 1e6");
  p.Add("update", 50000, 1000000, Update);
  return pbt::Main(argc, argv, {p});
}
