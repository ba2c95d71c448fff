// Generated true motions and simulated sensors
#ifndef TRUTH_HPP_
#define TRUTH_HPP_

#include "ekf/ekf.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "infrastructure/sim/truth_engine_spline.hpp"
#include "util.hpp"

namespace truth
{
using namespace util;
using namespace gen;
using pbt::Case;
using pbt::Gen;
using Eigen::Quaterniond;
using Eigen::Vector3d;

inline std::shared_ptr<DebugLogger> Silent() {return std::make_shared<DebugLogger>(LogLevel::FATAL, "");}

inline std::shared_ptr<EKF> AnyEkf(bool root = false)
{
  EKF::Parameters p;
  p.debug_logger = Silent();
  p.use_root_covariance = root;
  p.log_directory = "";
  return std::make_shared<EKF>(p);
}

struct Motion
{
  std::shared_ptr<TruthEngine> engine;
  double start, max, fmax;
  bool cyclic;
};

inline std::vector<double> Points(Gen & g, int n, double size)
{
  std::vector<double> out;
  Vector3d p = Vec(g, size);
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < 3; ++j) {out.push_back(p[j]);}
    p += UnitVec(g) * size * g.Real(0.3, 1.0);
  }
  return out;
}

inline Motion AnyMotion(Gen & g, double max, bool only_cyclic = false)
{
  Motion m;
  m.max = max;
  m.start = g.Coin(0.3) ? 0.0 : g.Real(0.0, 0.5) * max;
  m.cyclic = only_cyclic || !g.Coin(0.3);
  if (m.cyclic) {
    Vector3d pf = Vec(g, 1.0).cwiseAbs(), af = Vec(g, 1.0).cwiseAbs();
    m.fmax = std::max({pf.maxCoeff(), af.maxCoeff(), 0.05});
    m.engine = std::make_shared<TruthEngineCyclic>(
      pf, af, Vec(g, 3.0), Vec(g, 1.0), g.Real(-2, 2), g.Real(-1, 1), m.start, max, Silent());
  } else {
    int n = g.Int(3, 5);
    std::vector<double> none{0, 0, 0};
    m.engine = std::make_shared<TruthEngineSpline>(
      Points(g, n, 1.0), Points(g, n, 0.2), none, none, m.start, max, Silent());
    m.fmax = 0;
  }
  m.engine->SetLocalPosition(Vector3d(0, 0, 0));
  m.engine->SetLocalHeading(0);
  return m;
}

// Measurement times without errors: every 1/rate from zero, up to the maximum time
inline void CheckTimes(Case & c, const std::vector<double> & t, double rate, double max)
{
  double n = max * rate;
  c.Check(t.size() >= std::floor(n - 1e-9) && t.size() <= std::floor(n + 1e-9),
    "number of measurements " + S(double(t.size())) + " want " + S(std::floor(n)));
  for (size_t i = 0; i < t.size(); ++i) {
    c.Check(Near(t[i], i / rate, 1e-9 * (1 + t[i])), "time of measurement " + S(double(i)) + ": " + S(t[i]) + " want " + S(i / rate));
  }
}
// With errors: the same, later by a common part of a period, and scattered
inline void CheckTimesScattered(Case & c, const std::vector<double> & t, double rate, double max, double error)
{
  double n = max * rate;
  c.Check(t.size() >= std::floor(n - 1e-9) && t.size() <= std::floor(n + 1e-9), "number of measurements");
  double lo = -INFINITY, hi = INFINITY, mean = 0;
  for (size_t i = 0; i < t.size(); ++i) {
    double d = t[i] - i / rate;
    mean += d / t.size();
    lo = std::max(lo, d);
    hi = std::min(hi, d);
  }
  double slack = 7 * error + 1e-9 * (1 + max);
  if (t.empty()) {return;}
  c.Check(lo - hi <= 2 * slack, "scatter of the measurement times " + S(lo - hi) + ", time error " + S(error));
  c.Check(mean >= -slack && mean <= 1 / rate + slack, "offset of the measurement times " + S(mean));
  if (error > 0 && t.size() >= 400) {
    double var = 0;
    for (size_t i = 0; i < t.size(); ++i) {var += std::pow(t[i] - i / rate - mean, 2) / t.size();}
    c.Check(var > 0.5 * error * error && var < 1.6 * error * error, "time error " + S(std::sqrt(var)) + " want " + S(error));
  }
}

// Samples have mean zero and the standard deviations given (bounds of at least six standard errors)
inline void CheckNoise(Case & c, const std::vector<Vector3d> & e, const Vector3d & sd, const std::string & what, double eps = 1e-9)
{
  double n = e.size();
  for (int k = 0; k < 3; ++k) {
    double mean = 0, var = 0;
    for (auto & x : e) {mean += x[k] / n;}
    for (auto & x : e) {var += (x[k] - mean) * (x[k] - mean) / n;}
    c.Check(std::abs(mean) <= 6.5 * sd[k] / std::sqrt(n) + eps, what + ": mean " + S(mean) + " for deviation " + S(sd[k]) + " in " + S(n));
    if (n >= 100) {
      double rel = 6.5 * std::sqrt(2.0 / n);
      c.Check(var <= sd[k] * sd[k] * (1 + rel) + eps * eps, what + ": deviation " + S(std::sqrt(var)) + " want " + S(sd[k]));
      c.Check(var >= sd[k] * sd[k] * (1 - rel) - eps * eps, what + ": deviation " + S(std::sqrt(var)) + " want " + S(sd[k]));
    }
    for (auto & x : e) {c.Check(std::abs(x[k]) <= 8 * sd[k] + eps, what + ": outlier " + S(x[k]) + " for deviation " + S(sd[k]));}
  }
}
}  // namespace truth

#endif  // TRUTH_HPP_
