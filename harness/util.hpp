// Generators and reference mathematics shared by the property harnesses.
// The reference functions are written from the definitions, in long double, and
// share no code with the repository under test.
#ifndef UTIL_HPP_
#define UTIL_HPP_

#include <eigen3/Eigen/Eigen>

#include <cmath>
#include <memory>
#include <string>
#include <vector>

#include "pbt.hpp"

namespace ref
{
typedef long double real;
typedef Eigen::Matrix<real, 3, 1> V3;
typedef Eigen::Matrix<real, 3, 3> M3;

inline M3 Hat(const V3 & v)
{
  M3 m;
  m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
  return m;
}

// Rodrigues' formula
inline M3 Exp(const V3 & v)
{
  real t2 = v.dot(v), t = std::sqrt(t2);
  real a, b;
  if (t < 1e-4L) {
    a = 1 - t2 / 6 + t2 * t2 / 120;
    b = 0.5L - t2 / 24 + t2 * t2 / 720;
  } else {
    a = std::sin(t) / t;
    b = (1 - std::cos(t)) / t2;
  }
  M3 k = Hat(v);
  return M3::Identity() + a * k + b * k * k;
}
inline M3 Exp(const Eigen::Vector3d & v) {return Exp(V3(v.cast<real>()));}

// Right Jacobian of SO(3)
inline M3 RightJac(const V3 & v)
{
  real t2 = v.dot(v), t = std::sqrt(t2);
  real a, b;
  if (t < 1e-3L) {
    a = 0.5L - t2 / 24 + t2 * t2 / 720;
    b = 1.0L / 6 - t2 / 120 + t2 * t2 / 5040;
  } else {
    a = (1 - std::cos(t)) / t2;
    b = (t - std::sin(t)) / (t2 * t);
  }
  M3 k = Hat(v);
  return M3::Identity() - a * k + b * k * k;
}

// Rotation matrix of a (not necessarily unit) quaternion, from its components
inline M3 Rot(const Eigen::Quaterniond & q)
{
  real w = q.w(), x = q.x(), y = q.y(), z = q.z();
  real n = w * w + x * x + y * y + z * z;
  real s = 2 / n;
  M3 m;
  m << 1 - s * (y * y + z * z), s * (x * y - z * w), s * (x * z + y * w),
    s * (x * y + z * w), 1 - s * (x * x + z * z), s * (y * z - x * w),
    s * (x * z - y * w), s * (y * z + x * w), 1 - s * (x * x + y * y);
  return m;
}

// Rotation vector of a rotation matrix, angle in [0, pi]
inline V3 Log(const M3 & m)
{
  V3 w(m(2, 1) - m(1, 2), m(0, 2) - m(2, 0), m(1, 0) - m(0, 1));
  real s = std::sqrt(w.dot(w)) / 2;
  real c = (m.trace() - 1) / 2;
  real t = std::atan2(s, c);
  if (s > 1e-6L) {return w * (t / (2 * s));}
  if (c > 0) {return w / 2;}
  // near pi: axis from the symmetric part
  M3 b = (m + M3::Identity()) / 2;
  int k = 0;
  for (int i = 1; i < 3; ++i) {if (b(i, i) > b(k, k)) {k = i;}}
  V3 a = b.col(k) / std::sqrt(b(k, k));
  if (a.dot(w) < 0) {a = -a;}
  return a * t;
}

// Angle between two rotations
inline double Ang(const M3 & a, const M3 & b)
{
  M3 d = a.transpose() * b;
  V3 w(d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1));
  return static_cast<double>(std::atan2(std::sqrt(w.dot(w)) / 2, (d.trace() - 1) / 2));
}
inline double Ang(const Eigen::Quaterniond & a, const Eigen::Quaterniond & b) {return Ang(Rot(a), Rot(b));}
inline double Ang(const Eigen::Quaterniond & a, const M3 & b) {return Ang(Rot(a), b);}
inline double UnitErr(const Eigen::Quaterniond & q) {return std::abs(q.norm() - 1.0);}

}  // namespace ref

namespace gen
{
using pbt::Gen;

inline Eigen::Vector3d Vec(Gen & g, double a)
{
  Eigen::Vector3d v;
  for (int i = 0; i < 3; ++i) {v(i) = g.Sym(a);}
  return v;
}
// Vectors over many magnitudes, some axis-aligned, some zero
inline Eigen::Vector3d VecAny(Gen & g, double lo, double hi)
{
  switch (g.Int(0, 7)) {
    case 0: return Eigen::Vector3d::Zero();
    case 1: {
        Eigen::Vector3d v = Eigen::Vector3d::Zero();
        v(g.Int(0, 2)) = (g.Coin() ? -1 : 1) * g.Log(lo, hi);
        return v;
      }
    default: return Vec(g, 1.0) * g.Log(lo, hi);
  }
}
inline Eigen::Vector3d UnitVec(Gen & g)
{
  for (int k = 0; k < 20; ++k) {
    Eigen::Vector3d v = Vec(g, 1.0);
    double n = v.norm();
    if (n > 0.1 && n <= 1.0) {return v / n;}
  }
  return Eigen::Vector3d::UnitX();
}
// Rotation vector with angle in [0, max]
inline Eigen::Vector3d RotVec(Gen & g, double max)
{
  switch (g.Int(0, 7)) {
    case 0: return Eigen::Vector3d::Zero();
    case 1: return UnitVec(g) * g.Log(1e-12, 1e-3);
    case 2: {
        Eigen::Vector3d v = Eigen::Vector3d::Zero();
        v(g.Int(0, 2)) = g.Sym(max);
        return v;
      }
    case 3: return UnitVec(g) * max * (1.0 - g.Log(1e-9, 1e-2));
    default: return UnitVec(g) * g.Real(0.0, max);
  }
}
// Unit quaternion (either sign)
inline Eigen::Quaterniond Quat(Gen & g, double max = 3.14159265358979)
{
  ref::V3 r = RotVec(g, max).cast<ref::real>();
  ref::real t = std::sqrt(r.dot(r));
  ref::real s = t > 1e-9L ? std::sin(t / 2) / t : 0.5L;
  Eigen::Quaterniond q(
    static_cast<double>(std::cos(t / 2)), static_cast<double>(s * r(0)),
    static_cast<double>(s * r(1)), static_cast<double>(s * r(2)));
  q.normalize();
  if (g.Coin(0.2)) {q.coeffs() = -q.coeffs();}
  return q;
}
inline Eigen::MatrixXd Mat(Gen & g, int r, int c, double a)
{
  Eigen::MatrixXd m(r, c);
  for (int j = 0; j < c; ++j) {for (int i = 0; i < r; ++i) {m(i, j) = g.Sym(a);}}
  return m;
}
// Random symmetric positive definite matrix with entries of very different scales
inline Eigen::MatrixXd Spd(Gen & g, int n, double lo = 1e-4, double hi = 1e2)
{
  // expanded from a few choices, so that cases stay short and shrink well
  uint64_t s = g.Draw(0xffffffffull);
  auto next = [&s]() {
      s = s * 6364136223846793005ull + 1442695040888963407ull;
      return static_cast<double>(s >> 11) / 9007199254740992.0;
    };
  Eigen::MatrixXd a(n, n);
  for (int j = 0; j < n; ++j) {for (int i = 0; i < n; ++i) {a(i, j) = 2 * next() - 1;}}
  Eigen::MatrixXd p = a * a.transpose() / n + 0.05 * Eigen::MatrixXd::Identity(n, n);
  Eigen::VectorXd d(n);
  for (int i = 0; i < n; ++i) {d(i) = std::sqrt(std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * next()));}
  p = d.asDiagonal() * p * d.asDiagonal();
  return 0.5 * (p + p.transpose());
}
// Vector expanded from one choice
inline Eigen::VectorXd VecN(Gen & g, int n, double a)
{
  uint64_t s = g.Draw(0xffffffffull);
  Eigen::VectorXd v(n);
  if (s == 0) {v.setZero(); return v;}
  for (int i = 0; i < n; ++i) {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    v(i) = a * (2 * static_cast<double>(s >> 11) / 9007199254740992.0 - 1);
  }
  return v;
}
inline Eigen::MatrixXd MatN(Gen & g, int r, int c, double a)
{
  Eigen::VectorXd v = VecN(g, r * c, a);
  return Eigen::Map<Eigen::MatrixXd>(v.data(), r, c);
}
}  // namespace gen

namespace util
{
inline std::string S(const Eigen::MatrixXd & m)
{
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (int i = 0; i < m.rows(); ++i) {
    for (int j = 0; j < m.cols(); ++j) {o << (i + j ? " " : "") << m(i, j);}
    if (m.cols() > 1) {o << ";";}
  }
  o << "]";
  return o.str();
}
inline std::string S(const Eigen::Quaterniond & q)
{
  std::ostringstream o;
  o.precision(17);
  o << "(" << q.w() << " " << q.x() << " " << q.y() << " " << q.z() << ")";
  return o.str();
}
inline std::string S(double d) {std::ostringstream o; o.precision(17); o << d; return o.str();}

inline bool Near(double a, double b, double tol) {return std::abs(a - b) <= tol;}  // false for NaN

inline void CheckNear(pbt::Case & c, const Eigen::MatrixXd & got, const Eigen::MatrixXd & want, double tol, const std::string & what)
{
  if (got.rows() != want.rows() || got.cols() != want.cols()) {
    c.Fail(what + ": size " + std::to_string(got.rows()) + "x" + std::to_string(got.cols()) + " instead of " +
      std::to_string(want.rows()) + "x" + std::to_string(want.cols()));
  }
  for (int j = 0; j < got.cols(); ++j) {
    for (int i = 0; i < got.rows(); ++i) {
      if (!Near(got(i, j), want(i, j), tol)) {
        c.Fail(what + ": entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + S(got(i, j)) +
          ", expected " + S(want(i, j)) + " (tol " + S(tol) + ")");
      }
    }
  }
}
inline void CheckRot(pbt::Case & c, const Eigen::Quaterniond & got, const ref::M3 & want, double tol, const std::string & what)
{
  if (!(ref::UnitErr(got) < 1e-6)) {c.Fail(what + ": quaternion norm is " + S(got.norm()));}
  double a = ref::Ang(got, want);
  if (!(a <= tol)) {c.Fail(what + ": orientation off by " + S(a) + " rad, got " + S(got));}
}
inline void CheckRot(pbt::Case & c, const Eigen::Quaterniond & got, const Eigen::Quaterniond & want, double tol, const std::string & what)
{
  CheckRot(c, got, ref::Rot(want), tol, what);
}

// P from the stored covariance: U'U in the square-root form
inline Eigen::MatrixXd Full(const Eigen::MatrixXd & cov, bool root)
{
  return root ? Eigen::MatrixXd(cov.transpose() * cov) : cov;
}
// |a - b| <= tol * sqrt(s_i s_j), s the larger diagonal
inline void CheckCov(
  pbt::Case & c, const Eigen::MatrixXd & got, const Eigen::MatrixXd & want, double tol, const std::string & what,
  const Eigen::VectorXd * scale = nullptr)
{
  if (got.rows() != want.rows() || got.cols() != want.cols()) {
    c.Fail(what + ": covariance is " + std::to_string(got.rows()) + "x" + std::to_string(got.cols()) + " instead of " +
      std::to_string(want.rows()) + "x" + std::to_string(want.cols()));
  }
  for (int j = 0; j < got.cols(); ++j) {
    for (int i = 0; i < got.rows(); ++i) {
      double si = std::max(std::abs(want(i, i)), scale ? (*scale)(i) : 0.0);
      double sj = std::max(std::abs(want(j, j)), scale ? (*scale)(j) : 0.0);
      double t = tol * std::sqrt(si * sj) + 1e-300;
      if (!Near(got(i, j), want(i, j), t)) {
        c.Fail(what + ": covariance entry (" + std::to_string(i) + "," + std::to_string(j) + ") is " + S(got(i, j)) +
          ", expected " + S(want(i, j)) + " (tol " + S(t) + ")");
      }
    }
  }
}
}  // namespace util

#endif  // UTIL_HPP_
