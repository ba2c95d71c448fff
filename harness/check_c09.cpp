// C09: rotation conversions
#include <opencv2/opencv.hpp>

#include "utility/math_helper.hpp"
#include "utility/type_helper.hpp"
#include "util.hpp"

using namespace util;
using pbt::Case;
using pbt::Gen;

static void ExpLog(Gen & g, Case & c)
{
  Eigen::Vector3d v = gen::RotVec(g, g.Coin(0.3) ? 40.0 : 3.141592);
  c.note << "rotation vector " << S(v);
  c.Label(v.norm() < 1e-6 ? "tiny" : (v.norm() > 3.1 ? "large" : "medium"));
  if (v.norm() > 1e-9) {c.NonTrivial();}
  Eigen::Quaterniond q = RotVecToQuat(v);
  c.Check(ref::UnitErr(q) < 1e-12, "quaternion of a rotation vector has norm " + S(q.norm()));
  CheckRot(c, q, ref::Exp(v), 2e-9, "quaternion of a rotation vector");
  Eigen::Vector3d back = QuatToRotVec(q);
  c.Check(back.norm() < 3.1415926536 + 1e-9, "rotation vector longer than pi");
  if (v.norm() < 3.1415) {CheckNear(c, back, v, 1e-8, "rotation vector there and back");}
  // additivity about one axis
  double a = g.Sym(1.0);
  CheckRot(c, RotVecToQuat(a * v) * RotVecToQuat((1 - a) * v), ref::Exp(v), 1e-8, "rotation split in two about its axis");
}

static void LogExp(Gen & g, Case & c)
{
  Eigen::Quaterniond q = gen::Quat(g);
  c.note << "quaternion " << S(q);
  if (q.vec().norm() > 1e-6) {c.NonTrivial();}
  if (q.w() < 0) {c.Label("negative_w");}
  Eigen::Vector3d v = QuatToRotVec(q);
  CheckRot(c, q, ref::Exp(v), 3e-8, "rotation vector of a quaternion");
  CheckRot(c, RotVecToQuat(v), q, 3e-8, "quaternion there and back");
  Eigen::Quaterniond neg(-q.w(), -q.x(), -q.y(), -q.z());
  CheckRot(c, q, ref::Exp(QuatToRotVec(neg)), 3e-8, "rotation vector of the negated quaternion");
  c.Check(v.norm() <= 3.1415926536 + 1e-9, "rotation vector longer than pi: " + S(v.norm()));
  CheckNear(c, QuatToRotVec(q.conjugate()), -v, v.norm() > 3.1 ? 7.0 : 1e-8, "rotation vector of the inverse");
}

static void Rodrigues(Gen & g, Case & c)
{
  Eigen::Quaterniond q = gen::Quat(g, g.Coin(0.2) ? 3.14159265 : 3.1);
  c.note << "quaternion " << S(q);
  if (q.vec().norm() > 1e-6) {c.NonTrivial();}
  cv::Vec3d r = QuatToRodrigues(q);
  Eigen::Vector3d e(r[0], r[1], r[2]);
  CheckRot(c, q, ref::Exp(e), 5e-5, "Rodrigues vector of a quaternion");
  Eigen::Quaterniond b = RodriguesToQuat(r);
  CheckRot(c, b, ref::Exp(e), 1e-7, "quaternion of a Rodrigues vector");
  Eigen::Vector3d v = CvVectorToEigen(r);
  CheckNear(c, v, e, 0.0, "vector conversion");
  Eigen::Matrix3d m = gen::Mat(g, 3, 3, 100.0), m2;
  cv::Mat cm(3, 3, CV_64F, cv::Scalar(0));
  EigenMatrixToCv(m, cm);
  for (int i = 0; i < 3; ++i) {for (int j = 0; j < 3; ++j) {c.Check(cm.at<double>(i, j) == m(i, j), "matrix conversion to OpenCV");}}
  CvMatrixToEigen(cm, m2);
  CheckNear(c, m2, m, 0.0, "matrix conversion back");
}

static void Euler(Gen & g, Case & c)
{
  Eigen::Vector3d e = gen::VecAny(g, 1e-3, 7.0);
  c.note << "roll pitch yaw " << S(e);
  if (e.norm() > 1e-9) {c.NonTrivial();}
  Eigen::Quaterniond q = EigVecToQuat(e);
  ref::M3 r = ref::Exp(Eigen::Vector3d(0, 0, e(2))) * ref::Exp(Eigen::Vector3d(0, e(1), 0)) * ref::Exp(Eigen::Vector3d(e(0), 0, 0));
  CheckRot(c, q, r, 1e-9, "quaternion of roll, pitch, yaw");
}

static void StdConv(Gen & g, Case & c)
{
  int n = g.Int(0, 24);
  std::vector<double> v;
  for (int i = 0; i < n; ++i) {v.push_back(g.Sym(1.0) * g.Log(1e-6, 1e6));}
  c.note << "length " << n;
  if (n > 0) {c.NonTrivial();}
  c.Label("length_" + std::to_string(n));
  Eigen::VectorXd e = StdToEigVec(v);
  c.Check(e.size() == n, "vector of length " + std::to_string(n) + " converted to length " + std::to_string(e.size()));
  for (int i = 0; i < n; ++i) {c.Check(e(i) == v[i], "vector conversion changed entry " + std::to_string(i));}
  // quaternions, from configuration files in w, x, y, z order and any scale
  Eigen::Quaterniond q = gen::Quat(g);
  double s = g.Log(1e-3, 1e3);
  std::vector<double> w{s * q.w(), s * q.x(), s * q.y(), s * q.z()};
  Eigen::Quaterniond got = StdToEigQuat(w);
  c.Check(ref::UnitErr(got) < 1e-12, "configured quaternion is not normalised");
  CheckRot(c, got, q, 1e-7, "configured quaternion");
  if (n != 4) {CheckRot(c, StdToEigQuat(v), Eigen::Quaterniond::Identity(), 0.0, "quaternion of the wrong length");}
}

static void Jacobian(Gen & g, Case & c)
{
  Eigen::Vector3d v = gen::RotVec(g, 3.1);
  if (v.norm() > 1e-9) {c.NonTrivial();}
  c.note << "rotation vector " << S(v);
  Eigen::Quaterniond q = RotVecToQuat(v);
  Eigen::MatrixXd j = QuaternionJacobian(q);
  c.Check(j.rows() == 3 && j.cols() == 3, "rotation Jacobian is not 3x3");
  CheckNear(c, j, ref::RightJac(v.cast<ref::real>()).cast<double>(), 1e-6, "rotation Jacobian against the closed form");
  // definition: Exp(v + d) = Exp(v) Exp(J d) to first order
  Eigen::Vector3d d = gen::UnitVec(g) * 1e-5;
  ref::M3 lhs = ref::Exp(Eigen::Vector3d(v + d));
  ref::M3 rhs = ref::Exp(v) * ref::Exp(Eigen::Vector3d(j * d));
  c.Check(ref::Ang(lhs, rhs) < 1e-9, "rotation Jacobian is not the derivative, off by " + S(ref::Ang(lhs, rhs)));
}

static void Skew(Gen & g, Case & c)
{
  Eigen::Vector3d a = gen::VecAny(g, 1e-3, 1e3), b = gen::VecAny(g, 1e-3, 1e3);
  c.note << S(a) << " x " << S(b);
  if (a.norm() > 0 && b.norm() > 0) {c.NonTrivial();}
  Eigen::Matrix3d m = SkewSymmetric(a);
  Eigen::Vector3d x(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0));
  CheckNear(c, m * b, x, 1e-12 * (1 + a.norm() * b.norm()), "cross product matrix");
  CheckNear(c, m + m.transpose(), Eigen::Matrix3d::Zero(), 0.0, "cross product matrix is skew");
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C09";
  p.rule = "rotation vectors, quaternions of both signs, roll-pitch-yaw triples: zero, tiny, axis-aligned, near a half turn, beyond a full turn; "
    "configuration vectors of length 0 to 24; non-trivial: the rotation is not the identity (or the vector is not empty)";
  p.Add("exp_log", 1500000, 30000000, ExpLog);
  p.Add("log_exp", 1500000, 30000000, LogExp);
  p.Add("rodrigues", 800000, 10000000, Rodrigues);
  p.Add("euler", 800000, 10000000, Euler);
  p.Add("configuration_vectors", 400000, 5000000, StdConv);
  p.Add("jacobian", 800000, 10000000, Jacobian);
  p.Add("cross_product", 800000, 10000000, Skew);
  return pbt::Main(argc, argv, {p});
}
