// C15: camera model
#include <opencv2/opencv.hpp>

#include "ekf/types.hpp"
#include "ekf/update/msckf_updater.hpp"
#include "util.hpp"

using namespace util;
using pbt::Case;
using pbt::Gen;
typedef ref::real real;

static Intrinsics RandomIntrinsics(Gen & g)
{
  Intrinsics k;
  k.f_x = g.Log(1e-3, 1e-1);
  k.f_y = g.Coin() ? k.f_x : g.Log(1e-3, 1e-1);
  k.k_1 = g.Coin(0.3) ? 0.0 : g.Sym(0.4);
  k.k_2 = g.Coin(0.3) ? 0.0 : g.Sym(0.2);
  k.p_1 = g.Coin(0.3) ? 0.0 : g.Sym(0.05);
  k.p_2 = g.Coin(0.3) ? 0.0 : g.Sym(0.05);
  k.width = g.Int(64, 4096);
  k.height = g.Int(64, 4096);
  k.pixel_size = g.Log(1e-6, 2e-5);
  return k;
}
static void Note(Case & c, const Intrinsics & k)
{
  c.note << "f " << k.f_x << " " << k.f_y << " k " << k.k_1 << " " << k.k_2 << " p " << k.p_1 << " " << k.p_2 << " size " << k.width << "x" << k.height << " px " << k.pixel_size;
}

static void Projection(Gen & g, Case & c)
{
  Eigen::Vector3d p = gen::Vec(g, 1.0);
  p *= g.Log(1e-2, 1e4);
  p(2) = (g.Coin(0.1) ? -1 : 1) * g.Log(1e-2, 1e4);
  c.note << "point " << S(p);
  if (p.head<2>().norm() > 0) {c.NonTrivial();}
  Eigen::Vector2d q = MsckfUpdater::Project(p);
  Eigen::Vector2d want(p(0) / p(2), p(1) / p(2));
  CheckNear(c, q, want, 1e-12 * (1 + want.norm()), "projection");
  // scale invariance
  double s = g.Log(1e-2, 1e2);
  CheckNear(c, MsckfUpdater::Project(s * p), q, 1e-12 * (1 + q.norm()), "projection along a ray");
  Eigen::MatrixXd j = Eigen::MatrixXd::Constant(2, 3, 1e9);
  MsckfUpdater::ProjectionJacobian(p, j);
  double h = 1e-6 * std::abs(p(2));
  for (int k = 0; k < 3; ++k) {
    Eigen::Vector3d a = p, b = p;
    a(k) += h; b(k) -= h;
    Eigen::Vector2d d = (MsckfUpdater::Project(a) - MsckfUpdater::Project(b)) / (a(k) - b(k));
    double tol = 1e-6 * (1 + want.norm()) * (1 + want.norm()) / std::abs(p(2));
    CheckNear(c, j.col(k), d, tol, "projection Jacobian, column " + std::to_string(k));
  }
}

static void Distortion(Gen & g, Case & c)
{
  Intrinsics k = RandomIntrinsics(g);
  Eigen::Vector2d x(g.Sym(1.2), g.Sym(1.2));
  if (g.Coin(0.1)) {x(g.Int(0, 1)) = 0.0;}
  Note(c, k);
  c.note << " xy " << S(x);
  if (x.norm() > 1e-3 && (k.k_1 != 0 || k.k_2 != 0 || k.p_1 != 0 || k.p_2 != 0)) {c.NonTrivial();}
  // Brown-Conrady, as OpenCV defines it
  real r2 = static_cast<real>(x(0)) * x(0) + static_cast<real>(x(1)) * x(1);
  real rad = 1 + k.k_1 * r2 + k.k_2 * r2 * r2;
  Eigen::Vector2d want(
    static_cast<double>(x(0) * rad + 2 * k.p_1 * x(0) * x(1) + k.p_2 * (r2 + 2.0L * x(0) * x(0))),
    static_cast<double>(x(1) * rad + k.p_1 * (r2 + 2.0L * x(1) * x(1)) + 2 * k.p_2 * x(0) * x(1)));
  Eigen::Vector2d got = MsckfUpdater::Distort(x, k);
  CheckNear(c, got, want, 1e-12, "distorted coordinates");
  Eigen::MatrixXd j = Eigen::MatrixXd::Constant(2, 2, 1e9);
  MsckfUpdater::DistortionJacobian(x, k, j);
  double h = 1e-5;
  for (int q = 0; q < 2; ++q) {
    Eigen::Vector2d a = x, b = x;
    a(q) += h; b(q) -= h;
    Eigen::Vector2d d = (MsckfUpdater::Distort(a, k) - MsckfUpdater::Distort(b, k)) / (a(q) - b(q));
    CheckNear(c, j.col(q), d, 1e-7, "distortion Jacobian, column " + std::to_string(q));
  }
}

// The camera matrix and distortion vector handed to OpenCV describe the same camera
static void OpenCv(Gen & g, Case & c)
{
  Intrinsics k = RandomIntrinsics(g);
  Eigen::Vector3d p(g.Sym(1.0), g.Sym(1.0), 1.0);
  p *= g.Log(0.1, 100.0);
  Note(c, k);
  c.note << " point " << S(p);
  c.NonTrivial();
  cv::Mat cm = k.ToCameraMatrix(), dv = k.ToDistortionVector();
  std::vector<cv::Point3d> in{cv::Point3d(p(0), p(1), p(2))};
  std::vector<cv::Point2d> out;
  cv::projectPoints(in, cv::Mat::zeros(3, 1, CV_64F), cv::Mat::zeros(3, 1, CV_64F), cm, dv, out);
  Eigen::Vector2d d = MsckfUpdater::Distort(MsckfUpdater::Project(p), k);
  double u = d(0) * k.f_x / k.pixel_size + k.width / 2;
  double v = d(1) * k.f_y / k.pixel_size + k.height / 2;
  double tol = 1e-8 * (1 + std::abs(u) + std::abs(v));
  c.Check(Near(out[0].x, u, tol) && Near(out[0].y, v, tol), "pixel " + S(out[0].x) + "," + S(out[0].y) + " from OpenCV, " + S(u) + "," + S(v) + " from the model");
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C15";
  p.rule = "points over six decades of depth (in front and behind), intrinsics over two decades, all distortion coefficients zero or not; "
    "non-trivial: the point is off the optical axis and, for distortion, at least one coefficient is not zero";
  p.Add("projection", 1500000, 30000000, Projection);
  p.Add("distortion", 1500000, 30000000, Distortion);
  p.Add("opencv_agreement", 600000, 10000000, OpenCv);
  return pbt::Main(argc, argv, {p});
}
