// Reference for the sensor updates: the optimal linear update of the filter's own prediction with a
// measurement model written here from its definition and differentiated numerically.
#ifndef UPDATES_HPP_
#define UPDATES_HPP_

#include "history.hpp"

namespace updates
{
using namespace history;

// measured minus predicted
typedef std::function<Eigen::VectorXd(const Values &)> Residual;

// minus the derivative of the residual with respect to the filter's correction coordinates
inline Eigen::MatrixXd Jacobian(const Residual & r, const Values & v, const std::vector<Block> & blocks, int n, double h = 1e-5)
{
  Eigen::MatrixXd j(r(v).size(), n);
  for (int i = 0; i < n; ++i) {
    Eigen::VectorXd d = Eigen::VectorXd::Zero(n);
    d(i) = h;
    Eigen::VectorXd hi = r(Plus(v, blocks, d));
    d(i) = -h;
    j.col(i) = -(hi - r(Plus(v, blocks, d))) / (2 * h);
  }
  return j;
}

struct Expected
{
  Values v;
  Eigen::MatrixXd p;
  Eigen::VectorXd residual;
  Eigen::VectorXd correction;
  Eigen::MatrixXd h, s;
};

// Optimal update of a prior; the Jacobian is taken at `lin`
inline Expected Optimal(
  const Values & v, const Values & lin, const std::vector<Block> & blocks, const Eigen::MatrixXd & p,
  const Residual & r, const Eigen::MatrixXd & noise)
{
  Expected e;
  e.residual = r(v);
  e.h = Jacobian(r, lin, blocks, static_cast<int>(p.rows()));
  e.s = e.h * p * e.h.transpose() + noise;
  Eigen::MatrixXd gain = p * e.h.transpose() * e.s.inverse();
  e.correction = gain * e.residual;
  e.v = Plus(v, blocks, e.correction);
  Eigen::MatrixXd a = Eigen::MatrixXd::Identity(p.rows(), p.cols()) - gain * e.h;
  e.p = a * p * a.transpose() + gain * noise * gain.transpose();
  return e;
}

// Conditioning of the innovation, scaled
inline double Condition(const Eigen::MatrixXd & s)
{
  Eigen::VectorXd q = s.diagonal().cwiseSqrt().cwiseInverse();
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(q.asDiagonal() * s * q.asDiagonal());
  return es.eigenvalues()(s.rows() - 1) / es.eigenvalues()(0);
}

inline void CheckPosterior(Case & c, const EKF & ekf, const Expected & e, const Eigen::MatrixXd & prior, double tol, const std::string & what)
{
  CheckValues(c, Values(ekf.m_state), e.v, tol * (1 + e.correction.norm()), what);
  Eigen::VectorXd scale = 1e-3 * prior.diagonal();
  CheckCov(c, Full(ekf.m_cov, ekf.GetUseRootCovariance()), e.p, tol, what, &scale);
}

// Two identical filters: `a` gets the sensor updates, `b` only the predictions that go with them
struct Twin
{
  Twin(const Sensors & s, bool root) : a(s, root, s.regs.size()), b(s, root, s.regs.size()), root(root) {}
  void Sync() {b.ekf->m_state = a.ekf->m_state; b.ekf->m_cov = a.ekf->m_cov;}
  template<class F> void Both(F f) {f(*a.ekf); f(*b.ekf);}
  World a, b;
  bool root;
};

// Clones, a correlated covariance and random switches
inline void Warm(Gen & g, Case & c, Twin & t, double lo = 1e-4, double hi = 1e1)
{
  bool gravity = g.Coin(0.7), zero = g.Coin();
  t.Both([&](EKF & e) {if (gravity) {e.InitializeGravity();} e.SetZeroAcceleration(zero);});
  c.note << (t.root ? "root " : "standard ") << (gravity ? "gravity " : "") << (zero ? "zero-acc " : "");
  int frames = t.a.msckf.empty() ? 0 : g.Int(0, 4);
  for (int i = 0; i < frames; ++i) {
    unsigned int cam = PickKey(g, t.a.msckf);
    double to = t.a.ekf->GetCurrentTime() + g.Log(1e-2, 0.5);
    t.Both([&](EKF & e) {e.PredictModel(to); e.AugmentStateIfNeeded(cam, i + 1);});
  }
  if (g.Coin(0.8)) {
    Eigen::MatrixXd p = gen::Spd(g, static_cast<int>(t.a.ekf->GetStateSize()), lo, hi);
    t.Both([&](EKF & e) {SetCov(e, p);});
    c.Label("correlated");
  }
  c.Label(t.root ? "root" : "standard");
}

// Time of a measurement: later, now, or late
inline double Time(Gen & g, const EKF & ekf)
{
  return ekf.GetCurrentTime() + (g.Coin(0.3) ? 0.0 : (g.Coin(0.1) ? -g.Log(1e-3, 1.0) : g.Log(1e-3, 0.5)));
}

inline Eigen::MatrixXd RandomNoise(Gen & g, Case & c, int n, double lo, double hi, bool diagonal = false)
{
  Eigen::VectorXd d(n);
  double s = g.Log(lo, hi);
  for (int i = 0; i < n; ++i) {d(i) = s * g.Real(0.5, 2.0);}
  if (diagonal || g.Coin(0.6)) {return d.asDiagonal();}
  c.Label("correlated_noise");
  Eigen::MatrixXd m = d.cwiseSqrt().asDiagonal() * gen::Spd(g, n, 0.5, 2.0) * d.cwiseSqrt().asDiagonal();
  return 0.5 * (m + m.transpose());
}
}  // namespace updates

#endif  // UPDATES_HPP_
