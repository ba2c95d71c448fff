// C16: linear-algebra reductions used by the updates
#include "utility/math_helper.hpp"
#include "util.hpp"

using namespace util;
using pbt::Case;
using pbt::Gen;

static void Nullspace(Gen & g, Case & c)
{
  int k = g.Coin(0.8) ? 3 : g.Int(1, 6);
  int n = k + g.Int(1, 40);
  Eigen::MatrixXd hf = gen::MatN(g, n, k, 1.0) * g.Log(1e-3, 1e3);
  if (g.Coin(0.1)) {hf.col(g.Int(0, k - 1)).setZero(); c.Label("rank_deficient");}
  if (g.Coin(0.2)) {hf.row(g.Int(0, n - 1)).setZero();}
  int m = g.Int(1, 30);
  Eigen::MatrixXd hx = gen::MatN(g, n, m, 1.0) * g.Log(1e-3, 1e3);
  Eigen::VectorXd r = gen::VecN(g, n, 1.0) * g.Log(1e-3, 1e3);
  c.note << n << " measurements, " << k << " feature columns, " << m << " states, H_f " << S(hf);
  if (hf.norm() > 0 && n > k + 1) {c.NonTrivial();}
  // the projector itself: reduce the identity
  Eigen::MatrixXd nt = Eigen::MatrixXd::Identity(n, n);
  Eigen::VectorXd r0 = r;
  ApplyLeftNullspace(hf, nt, r0);
  c.Check(nt.rows() == n - k && nt.cols() == n && r0.size() == n - k, "reduced size is " + std::to_string(nt.rows()) + ", expected " + std::to_string(n - k));
  CheckNear(c, nt * nt.transpose(), Eigen::MatrixXd::Identity(n - k, n - k), 1e-10, "nullspace basis is orthonormal");
  CheckNear(c, nt * hf, Eigen::MatrixXd::Zero(n - k, k), 1e-10 * (1 + hf.norm()), "reduced feature Jacobian");
  CheckNear(c, r0, nt * r, 1e-10 * (1 + r.norm()), "reduced residual uses the same basis as the Jacobian");
  Eigen::MatrixXd h1 = hx;
  Eigen::VectorXd r1 = r;
  ApplyLeftNullspace(hf, h1, r1);
  CheckNear(c, h1, nt * hx, 1e-10 * (1 + hx.norm()), "reduced Jacobian");
  CheckNear(c, r1, r0, 1e-10 * (1 + r.norm()), "reduced residual");
  // a residual that a feature displacement explains disappears
  Eigen::VectorXd e = hf * gen::VecN(g, k, 1.0);
  Eigen::VectorXd e1 = e;
  Eigen::MatrixXd h2 = hx;
  ApplyLeftNullspace(hf, h2, e1);
  CheckNear(c, e1, Eigen::VectorXd::Zero(n - k), 1e-10 * (1 + e.norm()), "residual explained by the feature position");
}

static void Compress(Gen & g, Case & c)
{
  int m = g.Int(1, 60), n = g.Int(1, 60);
  if (g.Coin(0.5)) {m = std::min(90, n + g.Int(0, 40));}
  Eigen::MatrixXd j = gen::MatN(g, m, n, 1.0) * g.Log(1e-2, 1e2);
  Eigen::VectorXd r = gen::VecN(g, m, 1.0) * g.Log(1e-2, 1e2);
  if (g.Coin(0.3)) {
    int z = g.Int(0, n - 1);
    j.leftCols(z).setZero();
    c.Label("zero_leading_columns");
  }
  int zc = g.Coin(0.4) ? g.Int(1, n) : 0;
  for (int i = 0; i < zc; ++i) {j.col(g.Int(0, n - 1)).setZero();}
  int zr = g.Coin(0.4) ? g.Int(1, m) : 0;
  for (int i = 0; i < zr; ++i) {int k = g.Int(0, m - 1); j.row(k).setZero(); if (g.Coin()) {r(k) = 0;}}
  if (g.Coin(0.2) && n > 1) {j.col(g.Int(0, n - 1)) = j.col(g.Int(0, n - 1)).eval(); c.Label("dependent_columns");}
  if (g.Coin(0.2) && m > 1) {j.row(g.Int(0, m - 1)) = j.row(g.Int(0, m - 1)).eval(); c.Label("dependent_rows");}
  if (zc) {c.Label("zero_columns");}
  if (zr) {c.Label("zero_rows");}
  c.note << m << " measurements of " << n << " states, " << zc << " zero columns, " << zr << " zero rows";
  if (m >= n && j.norm() > 0) {c.NonTrivial(); c.Label("tall");}
  Eigen::MatrixXd j0 = j;
  Eigen::VectorXd r0 = r;
  CompressMeasurements(j, r);
  c.Check(j.cols() == n, "compression changed the number of states");
  c.Check(j.rows() == r.size(), "compression left " + std::to_string(j.rows()) + " Jacobian rows and " + std::to_string(r.size()) + " residuals");
  c.Check(j.rows() <= m, "compression added rows");
  if (m >= n) {c.Check(j.rows() <= n, "compression left " + std::to_string(j.rows()) + " rows for " + std::to_string(n) + " states");}
  double sj = 1 + j0.norm(), sr = 1 + r0.norm();
  CheckNear(c, j.transpose() * j, j0.transpose() * j0, 1e-10 * sj * sj, "information matrix after compression");
  CheckNear(c, j.transpose() * r, j0.transpose() * r0, 1e-8 * sj * sr, "information vector after compression");
  c.Check(r.norm() <= r0.norm() * (1 + 1e-10), "compression increased the residual");
}

static void QrSum(Gen & g, Case & c)
{
  int n = g.Int(1, 50), a = g.Int(1, 60), b = g.Int(1, 60);
  if (a + b < n) {a = n - b + (b >= n ? 0 : 0); a = std::max(1, n - b);}
  Eigen::MatrixXd l = gen::MatN(g, a, n, 1.0) * g.Log(1e-4, 1e4), r = gen::MatN(g, b, n, 1.0) * g.Log(1e-4, 1e4);
  if (g.Coin(0.2)) {r.setZero();}
  c.note << a << "+" << b << " rows, " << n << " columns";
  if (n > 1) {c.NonTrivial();}
  Eigen::MatrixXd q = QR_r(l, r);
  c.Check(q.rows() == n && q.cols() == n, "triangular factor has the wrong size");
  for (int i = 0; i < n; ++i) {for (int k = 0; k < i; ++k) {c.Check(q(i, k) == 0.0, "triangular factor has an entry below the diagonal");}}
  double s = 1 + l.squaredNorm() + r.squaredNorm();
  CheckNear(c, q.transpose() * q, l.transpose() * l + r.transpose() * r, 1e-12 * s, "square of the triangular factor");
}

static void InsertRemove(Gen & g, Case & c)
{
  int n = g.Int(1, 40), m = g.Coin(0.8) ? n : g.Int(1, 40), s = g.Int(1, 12), t = g.Coin(0.8) ? s : g.Int(1, 12);
  int row = g.Int(0, n), col = m == n && g.Coin(0.8) ? row : g.Int(0, m);
  Eigen::MatrixXd in = gen::MatN(g, n, m, 1e3), sub = gen::MatN(g, s, t, 1e3);
  c.note << n << "x" << m << " with " << s << "x" << t << " at " << row << "," << col;
  if (row > 0 && row < n && col > 0 && col < m) {c.NonTrivial();}
  Eigen::MatrixXd out = InsertInMatrix(sub, in, row, col);
  c.Check(out.rows() == n + s && out.cols() == m + t, "size after insertion");
  for (int i = 0; i < n + s; ++i) {
    for (int j = 0; j < m + t; ++j) {
      bool ri = i >= row && i < row + s, cj = j >= col && j < col + t;
      double want = 0.0;
      if (ri && cj) {want = sub(i - row, j - col);} else if (!ri && !cj) {want = in(i < row ? i : i - s, j < col ? j : j - t);}
      c.Check(out(i, j) == want, "entry " + std::to_string(i) + "," + std::to_string(j) + " after insertion");
    }
  }
  if (s == t) {
    Eigen::MatrixXd back = RemoveFromMatrix(out, row, col, s);
    CheckNear(c, back, in, 0.0, "removing what was inserted");
  }
  Eigen::MatrixXd full = gen::MatN(g, n + s, m + s, 1e3);
  Eigen::MatrixXd rem = RemoveFromMatrix(full, row, col, s);
  c.Check(rem.rows() == n && rem.cols() == m, "size after removal");
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < m; ++j) {
      c.Check(rem(i, j) == full(i < row ? i : i + s, j < col ? j : j + s), "entry " + std::to_string(i) + "," + std::to_string(j) + " after removal");
    }
  }
}

static void Small(Gen & g, Case & c)
{
  int n = g.Int(1, 30);
  std::vector<Eigen::Vector3d> v;
  std::vector<double> w;
  for (int i = 0; i < n; ++i) {
    v.push_back(gen::Vec(g, 100.0));
    w.push_back(g.Log(1e-2, 1e2));
  }
  c.note << n << " vectors";
  if (n > 1) {c.NonTrivial();}
  ref::V3 s = ref::V3::Zero(), sw = ref::V3::Zero();
  ref::real tw = 0;
  for (int i = 0; i < n; ++i) {s += v[i].cast<ref::real>(); sw += w[i] * v[i].cast<ref::real>(); tw += w[i];}
  Eigen::Vector3d mean = (s / n).cast<double>();
  CheckNear(c, average_vectors(v), mean, 1e-9, "average");
  CheckNear(c, average_vectors(v, w), (sw / tw).cast<double>(), 1e-9, "weighted average");
  ref::real q = 0;
  for (int i = 0; i < n; ++i) {q += (v[i] - mean).squaredNorm();}
  c.Check(Near(mean_standard_deviation(v), static_cast<double>(std::sqrt(q) / n), 1e-9), "mean standard deviation");
  Eigen::MatrixXd m = matrix2d_from_vectors3d(v);
  c.Check(m.rows() == 2 && m.cols() == n, "planar matrix size");
  for (int i = 0; i < n; ++i) {c.Check(m(0, i) == v[i](0) && m(1, i) == v[i](1), "planar matrix entry");}
  double far = 0;
  for (int i = 0; i < n; ++i) {for (int j = 0; j < n; ++j) {far = std::max(far, (v[i] - v[j]).head<2>().norm());}}
  c.Check(Near(maximum_distance(v), far, 2.9), "largest planar distance " + S(maximum_distance(v)) + ", expected " + S(far));
  double x = g.Coin(0.1) ? 0.0 : g.Sym(1.0) * g.Log(1e-12, 1e6);
  c.Check(sign(x) == (x > 0 ? 1.0 : (x < 0 ? -1.0 : 0.0)), "sign");
  Eigen::VectorXd b = gen::VecN(g, g.Int(0, 20), 10.0), b0 = b;
  double lo = g.Sym(10.0);
  MinBoundVector(b, lo);
  c.Check(b.size() == b0.size(), "lower bound changed the size");
  for (int i = 0; i < b.size(); ++i) {c.Check(b(i) == std::max(b0(i), lo), "lower bound of a vector");}
}

// Planar alignment recovers the motion that made the points
static void Kabsch(Gen & g, Case & c)
{
  int n = g.Int(4, 20);
  double scale = g.Log(1e-1, 1e3);
  double a = g.Coin(0.2) ? g.Pick(std::vector<double>{0.0, 3.141592653589793, -1.5707963267948966, 1.5707963267948966}) : g.Sym(3.14159);
  Eigen::Vector3d t = gen::Vec(g, 1e3);
  std::vector<Eigen::Vector3d> src, tgt;
  Eigen::Matrix3d r = ref::Exp(Eigen::Vector3d(0, 0, a)).cast<double>();
  for (int i = 0; i < n; ++i) {
    src.push_back(gen::Vec(g, scale));
    tgt.push_back(r * src.back() + t);
  }
  Eigen::MatrixXd m(2, n);
  for (int i = 0; i < n; ++i) {m.col(i) = src[i].head<2>();}
  Eigen::MatrixXd mc = m.colwise() - m.rowwise().mean();
  Eigen::JacobiSVD<Eigen::MatrixXd> svd(mc);
  if (svd.singularValues()(1) < 0.05 * scale) {c.Skip();}
  c.note << n << " points, angle " << a << ", translation " << S(t);
  if (a != 0.0) {c.NonTrivial();}
  Eigen::Affine3d tf;
  double ps = -1, as = -1;
  c.Check(kabsch_2d(tgt, src, tf, ps, as), "alignment of " + std::to_string(n) + " points refused");
  double tol = 1e-8 * (1 + scale + t.norm());
  CheckNear(c, tf.linear(), r, 1e-8 * (1 + (t.norm() + scale) / scale), "rotation of the alignment");
  for (int i = 0; i < n; ++i) {CheckNear(c, tf * src[i], tgt[i], 10 * tol, "aligned point");}
  c.Check(ps >= 0 && ps < 10 * tol, "position deviation of a perfect alignment is " + S(ps));
  double d = std::remainder(affine_angle(tf) - a, 2 * M_PI);
  c.Check(std::abs(d) < 1e-6 * (1 + (t.norm() + scale) / scale * 1e-2), "angle of the alignment is " + S(affine_angle(tf)) + ", expected " + S(a));
  // too few or mismatched points are refused
  std::vector<Eigen::Vector3d> few(src.begin(), src.begin() + g.Int(0, 3));
  c.Check(!kabsch_2d(few, few, tf, ps, as), "alignment of fewer than four points accepted");
  std::vector<Eigen::Vector3d> more = src;
  more.push_back(t);
  c.Check(!kabsch_2d(more, src, tf, ps, as), "alignment of unequal point sets accepted");
}

// Planar alignment of point sets that no motion maps onto each other: the best rotation and translation
static void Fit(Gen & g, Case & c)
{
  int n = g.Int(4, 12);
  double scale = g.Log(1e-1, 1e3), noise = scale * g.Pick(std::vector<double>{0.0, 1e-3, 0.1, 1.0, 10.0});
  double across = g.Pick(std::vector<double>{1.0, 1.0, 0.1, 1e-3, 0.0});
  bool mirrored = g.Coin(0.25);
  Eigen::Vector3d t = gen::Vec(g, 100.0 * scale);
  Eigen::Matrix3d r = ref::Exp(Eigen::Vector3d(0, 0, g.Sym(3.14159))).cast<double>();
  Eigen::Matrix3d q = ref::Exp(Eigen::Vector3d(0, 0, g.Coin(0.3) ? 0.0 : g.Sym(3.14159))).cast<double>();
  Eigen::Vector3d offset = gen::Vec(g, 10.0 * scale);
  std::vector<Eigen::Vector3d> src, tgt;
  ref::V3 ms = ref::V3::Zero(), mt = ref::V3::Zero();
  for (int i = 0; i < n; ++i) {
    Eigen::Vector3d p = gen::Vec(g, scale);
    p(1) *= across;
    src.push_back(offset + q * p);
    if (mirrored) {p(1) *= -1;}
    tgt.push_back(r * q * p + t + gen::Vec(g, 1.0) * noise);
    ms += src.back().cast<ref::real>() / n;
    mt += tgt.back().cast<ref::real>() / n;
  }
  ref::real dot = 0, cross = 0, all = 0;
  for (int i = 0; i < n; ++i) {
    ref::V3 a = src[i].cast<ref::real>() - ms, b = tgt[i].cast<ref::real>() - mt;
    dot += a(0) * b(0) + a(1) * b(1);
    cross += a(0) * b(1) - a(1) * b(0);
    all += a.head<2>().norm() * b.head<2>().norm();
  }
  ref::real strength = std::sqrt(dot * dot + cross * cross);
  if (strength < 1e-3L * all || all < 1e-6L * scale * scale) {c.Skip();}
  c.note << n << " points, noise " << noise << (mirrored ? ", mirrored" : "") << ", width " << across;
  if (noise > 0 || mirrored) {c.NonTrivial();}
  if (mirrored) {c.Label("mirrored");}
  if (across == 0.0) {c.Label("on a line");}
  double a = static_cast<double>(std::atan2(cross, dot));
  Eigen::Affine3d tf;
  double ps = -1, as = -1;
  c.Check(kabsch_2d(tgt, src, tf, ps, as), "alignment of " + std::to_string(n) + " points refused");
  Eigen::Matrix3d want = ref::Exp(Eigen::Vector3d(0, 0, a)).cast<double>();
  CheckNear(c, tf.linear(), want, 1e-7, "rotation of the best alignment");
  CheckNear(c, tf * ms.cast<double>(), mt.cast<double>(), 1e-6 * (scale + noise + t.norm() + offset.norm()), "centre after the best alignment");
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C16";
  p.rule = "random matrices up to 90x60 with zero and dependent rows and columns, leading zero columns, scales over six decades; random planar motions, noisy, mirrored and collinear point sets; "
    "non-trivial: the operation has something to reduce, move or align";
  p.Add("nullspace", 40000, 1000000, Nullspace);
  p.Add("compression", 60000, 1500000, Compress);
  p.Add("triangular_sum", 60000, 1500000, QrSum);
  p.Add("insert_remove", 150000, 3000000, InsertRemove);
  p.Add("small_helpers", 300000, 5000000, Small);
  p.Add("planar_alignment", 200000, 4000000, Kabsch);
  p.Add("planar_fit", 100000, 4000000, Fit);
  return pbt::Main(argc, argv, {p});
}
