// C03: the measurement update
#include "ekf/update/updater.hpp"
#include "model.hpp"

using namespace model;
typedef Eigen::Matrix<ref::real, Eigen::Dynamic, Eigen::Dynamic> ML;
typedef Eigen::Matrix<ref::real, Eigen::Dynamic, 1> VL;

struct Setup
{
  Built b;
  Eigen::MatrixXd h, noise, p;
  Eigen::VectorXd r;
  bool root;
  int n, m;
  double cond;
};
static Setup Make(Gen & g, Case & c)
{
  Setup s;
  s.root = g.Coin(0.4);
  EKF::Parameters params = RandomParams(g, s.root);
  s.b = Build(g, c, params, 5, 6);
  s.n = s.b.ekf->GetStateSize();
  s.m = g.Coin(0.1) ? g.Int(1, 60) : g.Int(1, 9);
  s.p = gen::Spd(g, s.n, 1e-4, 1e1);
  SetCov(*s.b.ekf, s.p);
  s.p = Full(s.b.ekf->m_cov, s.root);
  s.h = gen::MatN(g, s.m, s.n, 1.0);
  if (g.Coin(0.5)) {  // sparse, as real Jacobians are
    for (int j = 0; j < s.n; ++j) {if (g.Coin(0.6)) {s.h.col(j).setZero();}}
  }
  for (int i = 0; i < s.m; ++i) {s.h.row(i) *= g.Log(0.1, 10.0);}
  Eigen::MatrixXd hph = s.h * s.p * s.h.transpose();
  Eigen::VectorXd d(s.m);
  double level = g.Log(1e-4, 1e4);
  for (int i = 0; i < s.m; ++i) {d(i) = std::max(1e-8, hph(i, i)) * level * g.Real(0.5, 2.0);}
  s.noise = d.asDiagonal();
  if (g.Coin(0.4)) {
    Eigen::VectorXd q = d.cwiseSqrt();
    s.noise = q.asDiagonal() * gen::Spd(g, s.m, 0.5, 2.0) * q.asDiagonal();
    s.noise = (0.5 * (s.noise + s.noise.transpose())).eval();
    c.Label("correlated_noise");
  }
  s.r = gen::VecN(g, s.m, 1.0);
  for (int i = 0; i < s.m; ++i) {s.r(i) *= std::sqrt(hph(i, i)) * 0.2;}
  c.note << (s.root ? "root" : "standard") << " state " << s.n << " measurements " << s.m << " noise level " << level << " ";
  c.Label(s.root ? "root" : "standard");
  Eigen::MatrixXd in = hph + s.noise;
  Eigen::VectorXd q = in.diagonal().cwiseSqrt().cwiseInverse();
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(q.asDiagonal() * in * q.asDiagonal());
  s.cond = es.eigenvalues()(s.m - 1) / es.eigenvalues()(0);
  return s;
}

static void Reference(Gen & g, Case & c)
{
  Setup s = Make(g, c);
  if (!(s.cond > 0 && s.cond < 1e7)) {c.Skip();}
  EKF & ekf = *s.b.ekf;
  Values before(ekf.m_state);
  auto blocks = Blocks(ekf);
  ML P = s.p.cast<ref::real>(), H = s.h.cast<ref::real>(), R = s.noise.cast<ref::real>();
  ML In = H * P * H.transpose() + R;
  // gain by Cholesky, covariance by the information-preserving short form in extended precision
  Eigen::LLT<ML> llt(In);
  ML K = llt.solve(H * P).transpose();
  VL dx = K * s.r.cast<ref::real>();
  ML Pn = P - K * In * K.transpose();
  if (s.n > 18 && s.m > 1) {c.NonTrivial();}
  Updater::KalmanUpdate(ekf, s.h, s.r, s.noise);
  CheckLayout(c, ekf, true);
  Eigen::VectorXd scale = s.p.diagonal();
  CheckCov(c, Full(ekf.m_cov, s.root), Pn.cast<double>(), 1e-7, "covariance after the update", &scale);
  double tol = 1e-7;
  CheckValues(c, Values(ekf.m_state), Plus(before, blocks, dx.cast<double>()), tol, "state after the update");
}

static void Laws(Gen & g, Case & c)
{
  Setup s = Make(g, c);
  if (!(s.cond > 0 && s.cond < 1e7)) {c.Skip();}
  EKF & ekf = *s.b.ekf;
  if (s.n > 18) {c.NonTrivial();}
  Values before(ekf.m_state);
  Eigen::MatrixXd cov0 = ekf.m_cov;
  State state0 = ekf.m_state;
  // a zero residual leaves the estimate alone
  Updater::KalmanUpdate(ekf, s.h, Eigen::VectorXd::Zero(s.m), s.noise);
  CheckValues(c, Values(ekf.m_state), before, 1e-12, "zero residual");
  // information never decreases: prior minus posterior is positive semi-definite
  Eigen::MatrixXd post = Full(ekf.m_cov, s.root);
  Eigen::VectorXd q = s.p.diagonal().cwiseSqrt().cwiseInverse();
  Eigen::MatrixXd d = q.asDiagonal() * (s.p - post) * q.asDiagonal();
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(0.5 * (d + d.transpose()));
  c.Check(es.eigenvalues()(0) > -1e-8, "an update increased the uncertainty by " + S(-es.eigenvalues()(0)));
  Eigen::MatrixXd d2 = q.asDiagonal() * post * q.asDiagonal();
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es2(0.5 * (d2 + d2.transpose()));
  c.Check(es2.eigenvalues()(0) > -1e-8, "covariance after an update is not positive");
  CheckNear(c, d2, d2.transpose(), 1e-9, "covariance after an update is symmetric");
  // the covariance does not depend on the residual
  EKF & other = ekf;
  other.m_cov = cov0;
  other.m_state = state0;
  Updater::KalmanUpdate(other, s.h, s.r, s.noise);
  CheckCov(c, Full(other.m_cov, s.root), post, 1e-9, "covariance for another residual", nullptr);
  // the order of the measurements does not matter
  std::vector<int> perm;
  for (int i = 0; i < s.m; ++i) {perm.push_back(i);}
  for (int i = s.m - 1; i > 0; --i) {std::swap(perm[i], perm[g.Int(0, i)]);}
  Eigen::MatrixXd hp(s.m, s.n), rp(s.m, s.m);
  Eigen::VectorXd vp(s.m);
  for (int i = 0; i < s.m; ++i) {
    hp.row(i) = s.h.row(perm[i]);
    vp(i) = s.r(perm[i]);
    for (int j = 0; j < s.m; ++j) {rp(i, j) = s.noise(perm[i], perm[j]);}
  }
  Values updated(ekf.m_state);
  EKF & third = ekf;
  third.m_cov = cov0;
  third.m_state = state0;
  Updater::KalmanUpdate(third, hp, vp, rp);
  Eigen::VectorXd scale = s.p.diagonal();
  CheckCov(c, Full(third.m_cov, s.root), post, 1e-7, "covariance for another measurement order", &scale);
  CheckValues(c, Values(third.m_state), updated, 1e-7, "state for another measurement order");
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C03";
  p.rule = "filters with up to 5 sensors and 6 clones, arbitrary correlated covariance over five decades, 1 to 60 measurements, dense and sparse Jacobians, "
    "noise 1e-4 to 1e4 of the prior, correlated noise in the standard form; non-trivial: state larger than the body and more than one measurement";
  p.assumptions.push_back("measurement noise is diagonal in the square-root form");
  p.Add("reference", 80000, 1500000, Reference);
  p.Add("laws", 40000, 800000, Laws);
  return pbt::Main(argc, argv, {p});
}
