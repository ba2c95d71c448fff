// C01: layout of the filter state over histories of registrations, predictions, clones, updates
#include "ekf/update/updater.hpp"
#include "model.hpp"

using namespace model;

// Every quantity in `before` still has the covariance it had
static void CheckPreserved(Case & c, const Cov & before, const Cov & after, const std::string & what)
{
  for (auto & a : before.Get()) {
    c.Check(after.Has(a.label), what + ": lost " + Name(a.label));
    for (auto & b : before.Get()) {
      CheckEntry(c, after.At(a.label, b.label), before.At(a.label, b.label), before.Diag(a.label), before.Diag(b.label), 1e-9,
        what + ": " + Name(a.label) + " with " + Name(b.label));
    }
  }
}
// The new quantity has the covariance it was registered with and no correlation
static void CheckNew(Case & c, const Cov & before, const Cov & after, const Label & l, const Eigen::MatrixXd & cov, const std::string & what)
{
  c.Check(after.Has(l), what + ": " + Name(l) + " is not estimated");
  CheckEntry(c, after.At(l, l), cov, cov.diagonal(), cov.diagonal(), 1e-9, what + ": initial covariance of " + Name(l));
  for (auto & b : before.Get()) {
    Eigen::MatrixXd z = Eigen::MatrixXd::Zero(after.Diag(l).size(), b.size);
    CheckEntry(c, after.At(l, b.label), z, cov.diagonal(), before.Diag(b.label), 1e-9, what + ": " + Name(l) + " with " + Name(b.label));
    CheckEntry(c, after.At(b.label, l), z.transpose(), before.Diag(b.label), cov.diagonal(), 1e-9, what + ": " + Name(b.label) + " with " + Name(l));
  }
}

static void History(Gen & g, Case & c)
{
  bool root = g.Coin(0.4);
  EKF::Parameters params = RandomParams(g, root);
  params.augmenting_type = g.Pick(std::vector<AugmentationType>{AugmentationType::ALL, AugmentationType::PRIMARY, AugmentationType::NONE, AugmentationType::TIME, AugmentationType::ERROR});
  EKF ekf(params);
  c.note << (root ? "root" : "standard") << " type " << static_cast<int>(params.augmenting_type);
  c.Label(root ? "root" : "standard");
  BodyState body;
  RandomBody(g, body);
  ekf.Initialize(0.0, body);
  double t = 0.0;
  bool indexed = false;
  bool correlated = false;
  unsigned int frame = 1;
  std::vector<unsigned int> cams;
  CheckLayout(c, ekf, indexed);
  int steps = g.Int(1, 16);
  int registered = 0;
  for (int k = 0; k < steps; ++k) {
    Cov before(ekf);
    Values values(ekf.m_state);
    int op = g.Int(0, 10);
    std::string what = "step " + std::to_string(k);
    c.note << "; ";
    switch (op) {
      case 0: case 1: {
          unsigned int id = RandomId(g);
          ImuState s = RandomImu(g);
          Eigen::MatrixXd cov = RandomCov(g, 12, root);
          bool dup = ekf.m_state.imu_states.count(id);
          what += " register IMU " + std::to_string(id);
          c.note << "IMU " << id << (s.GetIsExtrinsic() ? "e" : "") << (s.GetIsIntrinsic() ? "i" : "");
          if (!dup && !ekf.m_state.imu_states.empty() && id < ekf.m_state.imu_states.rbegin()->first) {c.Label("out_of_order_id");}
          ekf.RegisterIMU(id, s, cov.topLeftCorner(s.size, s.size));
          Cov after(ekf);
          CheckLayout(c, ekf, indexed || !dup);
          CheckPreserved(c, before, after, what);
          if (dup) {
            c.Label("duplicate");
            CheckValues(c, Values(ekf.m_state), values, 0.0, what + " again");
            c.Check(after.Get().size() == before.Get().size(), what + " again: added a quantity");
          } else {
            indexed = true; ++registered;
            int at = 0;
            if (s.GetIsExtrinsic()) {CheckNew(c, before, after, Label{IMU_EXT, id, 0}, cov.block(0, 0, 6, 6), what); at = 6;}
            if (s.GetIsIntrinsic()) {CheckNew(c, before, after, Label{IMU_INT, id, 0}, cov.block(at, at, 6, 6), what);}
            Values v(ekf.m_state);
            c.Check(v.vec["IMU " + std::to_string(id) + " position"] == s.pos_i_in_b, what + ": position not kept");
            c.Check(v.vec["IMU " + std::to_string(id) + " gyroscope bias"] == s.omg_bias, what + ": bias not kept");
          }
          break;
        }
      case 2: {
          unsigned int id = RandomId(g);
          GpsState s = RandomGps(g);
          Eigen::MatrixXd cov = RandomCov(g, 3, root);
          bool dup = ekf.m_state.gps_states.count(id);
          what += " register GPS " + std::to_string(id);
          c.note << "GPS " << id << (s.GetIsExtrinsic() ? "e" : "");
          if (!dup && !ekf.m_state.gps_states.empty() && id < ekf.m_state.gps_states.rbegin()->first) {c.Label("out_of_order_id");}
          ekf.RegisterGPS(id, s, cov);
          Cov after(ekf);
          CheckLayout(c, ekf, indexed || !dup);
          CheckPreserved(c, before, after, what);
          if (dup) {
            c.Label("duplicate");
            CheckValues(c, Values(ekf.m_state), values, 0.0, what + " again");
          } else {
            indexed = true; ++registered;
            if (s.GetIsExtrinsic()) {CheckNew(c, before, after, Label{GPS, id, 0}, cov, what);}
            c.Check(Values(ekf.m_state).vec["GPS " + std::to_string(id) + " antenna"] == s.pos_a_in_b, what + ": antenna position not kept");
          }
          break;
        }
      case 3: {
          unsigned int id = RandomId(g);
          CamState s = RandomCam(g);
          Eigen::MatrixXd cov = RandomCov(g, 6, root);
          bool dup = ekf.m_state.cam_states.count(id);
          what += " register camera " + std::to_string(id);
          c.note << "camera " << id << (s.GetIsExtrinsic() ? "e" : "");
          if (!dup && !ekf.m_state.cam_states.empty() && id < ekf.m_state.cam_states.rbegin()->first) {c.Label("out_of_order_id");}
          ekf.RegisterCamera(id, s, cov);
          Cov after(ekf);
          CheckLayout(c, ekf, indexed || !dup);
          CheckPreserved(c, before, after, what);
          if (dup) {
            c.Label("duplicate");
            CheckValues(c, Values(ekf.m_state), values, 0.0, what + " again");
          } else {
            indexed = true; ++registered;
            cams.push_back(id);
            if (s.GetIsExtrinsic()) {CheckNew(c, before, after, Label{CAM, id, 0}, cov, what);}
            c.Check(Values(ekf.m_state).vec["camera " + std::to_string(id) + " position"] == s.pos_c_in_b, what + ": position not kept");
          }
          break;
        }
      case 4: {
          FidState s = RandomFid(g);
          Eigen::MatrixXd cov = RandomCov(g, 6, root);
          bool dup = ekf.m_state.fid_states.count(s.id);
          what += " register fiducial " + std::to_string(s.id);
          c.note << "fiducial " << s.id << (s.GetIsExtrinsic() ? "e" : "");
          if (!dup && !ekf.m_state.fid_states.empty() && s.id < ekf.m_state.fid_states.rbegin()->first) {c.Label("out_of_order_id");}
          if (ekf.GetAugStateSize() > 0) {c.Label("fiducial_after_clones");}
          ekf.RegisterFiducial(s, cov);
          Cov after(ekf);
          CheckLayout(c, ekf, indexed || !dup);
          CheckPreserved(c, before, after, what);
          if (dup) {
            c.Label("duplicate");
            CheckValues(c, Values(ekf.m_state), values, 0.0, what + " again");
          } else {
            indexed = true; ++registered;
            if (s.GetIsExtrinsic()) {CheckNew(c, before, after, Label{FID, s.id, 0}, cov, what);}
            c.Check(Values(ekf.m_state).vec["fiducial " + std::to_string(s.id) + " position"] == s.pos_f_in_l, what + ": position not kept");
          }
          break;
        }
      case 5: case 6: {
          t += g.Coin(0.2) ? 0.0 : g.Log(1e-3, 3.0);
          c.note << "predict " << t;
          if (!indexed) {break;}
          ekf.PredictModel(t);
          CheckLayout(c, ekf, indexed);
          break;
        }
      case 7: {
          if (cams.empty()) {break;}
          unsigned int id = g.Pick(cams);
          c.note << "frame " << frame << " of camera " << id;
          ekf.AugmentStateIfNeeded(id, frame++);
          if (ekf.GetAugStateSize() > 0) {c.Label("clones");}
          CheckLayout(c, ekf, indexed);
          break;
        }
      case 8: {
          unsigned int n = ekf.GetStateSize();
          int m = g.Int(1, 6);
          Eigen::MatrixXd h = gen::MatN(g, m, n, 1.0);
          Eigen::VectorXd r = gen::VecN(g, m, 0.1);
          Eigen::MatrixXd noise = Eigen::MatrixXd::Identity(m, m) * g.Log(1e-3, 1.0);
          c.note << "update with " << m << " measurements";
          Updater::KalmanUpdate(ekf, h, r, noise);
          correlated = true;
          CheckLayout(c, ekf, indexed);
          break;
        }
      case 9: {
          c.note << "gravity";
          ekf.InitializeGravity();
          CheckLayout(c, ekf, indexed);
          break;
        }
      case 10: {
          // an arbitrary correlated covariance, as a long history leaves behind
          c.note << "correlated covariance";
          SetCov(ekf, gen::Spd(g, ekf.GetStateSize(), 1e-4, 1e2));
          correlated = true;
          break;
        }
    }
  }
  if (registered >= 2 && correlated) {c.NonTrivial();}
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C01";
  p.rule = "histories of up to 16 operations (registration of IMUs, GPS, cameras, fiducials with arbitrary IDs and flags, duplicates, prediction, frames, updates, "
    "gravity initialisation, arbitrary correlated covariances) in both covariance forms and all augmentation types; "
    "non-trivial: at least two registrations and a correlated covariance";
  p.Add("history", 150000, 3000000, History);
  return pbt::Main(argc, argv, {p});
}
