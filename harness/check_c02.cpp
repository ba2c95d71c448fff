// C02: the estimate stays a valid Gaussian estimate over whole histories
#include "history.hpp"

using namespace history;

static void Valid(Case & c, World & w, bool root, const std::string & what)
{
  EKF & ekf = *w.ekf;
  CheckLayout(c, ekf, true);
  Values v(ekf.m_state);
  for (auto & x : v.vec) {c.Check(x.second.allFinite(), what + ": " + x.first + " is not finite");}
  for (auto & x : v.rot) {
    double n = x.second.norm();
    c.Check(std::abs(n - 1.0) < 1e-6, what + ": " + x.first + " is not a unit quaternion (norm " + S(n) + ")");
  }
  c.Check(ekf.m_cov.allFinite(), what + ": covariance is not finite");
  Eigen::MatrixXd p = Full(ekf.m_cov, root);
  int n = static_cast<int>(p.rows());
  Eigen::VectorXd d = p.diagonal();
  for (int i = 0; i < n; ++i) {c.Check(d(i) >= 0, what + ": negative variance " + S(d(i)) + " at " + std::to_string(i));}
  Eigen::VectorXd sc(n);
  double top = d.maxCoeff();
  for (int i = 0; i < n; ++i) {sc(i) = 1 / std::sqrt(std::max(d(i), 1e-12 * top + 1e-300));}
  Eigen::MatrixXd r = sc.asDiagonal() * p * sc.asDiagonal();
  double asym = (r - r.transpose()).cwiseAbs().maxCoeff();
  c.Check(asym < 1e-6, what + ": covariance is not symmetric (relative difference " + S(asym) + ")");
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(0.5 * (r + r.transpose()), Eigen::EigenvaluesOnly);
  c.Check(es.eigenvalues()(0) > -1e-6, what + ": covariance is not positive semi-definite (smallest eigenvalue of the correlation matrix " + S(es.eigenvalues()(0)) + ")");
}

static void History(Gen & g, Case & c)
{
  Limits lim;
  Sensors s = RandomSensors(g, c, lim);
  bool root = g.Coin();
  c.note << (root ? "root " : "standard ");
  c.Label(root ? "root" : "standard");
  size_t registered = 1 + g.Draw(s.regs.size() - 1);
  World w(s, root, registered);
  unsigned int frame = 1;
  int steps = g.Int(1, 60);
  int updates = 0;
  for (int k = 0; k < steps; ++k) {
    Op op = NextOp(g, c, w, frame, s.regs.size(), registered);
    w.Apply(op);
    Valid(c, w, root, "step " + std::to_string(k));
    if (op.kind != Op::PREDICT && op.kind != Op::GRAVITY && op.kind != Op::REGISTER && op.kind != Op::FRAME) {++updates;}
  }
  if (updates > 0) {c.NonTrivial();}
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C02";
  p.rule = "histories of up to 60 operations (registrations, predictions, frames, IMU, GPS, fiducial and feature-track updates) on random sensors and configurations, both "
    "covariance forms, checked after every operation; non-trivial: at least one measurement update";
  p.Add("history", 20000, 500000, History);
  return pbt::Main(argc, argv, {p});
}
