// C18: simulated true motion
#include "util.hpp"
#include "files.hpp"

#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "infrastructure/sim/truth_engine_smoother.hpp"
#include "infrastructure/sim/truth_engine_spline.hpp"

using namespace util;
using namespace gen;
using namespace pbt;
using Eigen::Quaterniond;
using Eigen::Vector3d;

static std::shared_ptr<DebugLogger> Silent() {return std::make_shared<DebugLogger>(LogLevel::FATAL, "");}

typedef std::function<Vector3d (double)> Fun;
static Vector3d Slope(const Fun & f, double t, double h)
{
  auto d = [&](double k) {return Vector3d((f(t + k) - f(t - k)) / (2 * k));};
  return (4 * d(h / 2) - d(h)) / 3;
}
// Rate of turn in the body frame, from the orientation alone
static Vector3d Turn(TruthEngine & e, double a, double b)
{
  ref::M3 r = ref::Rot(e.GetBodyAngularPosition(a)).transpose() * ref::Rot(e.GetBodyAngularPosition(b));
  return ref::Log(r).cast<double>() / (b - a);
}
static Vector3d TurnSlope(TruthEngine & e, double t, double h)
{
  return (4 * Turn(e, t - h / 2, t + h / 2) - Turn(e, t - h, t + h)) / 3;
}
static ref::M3 Zyx(const Vector3d & rpy)
{
  Eigen::Vector3d z(0, 0, rpy[2]), y(0, rpy[1], 0), x(rpy[0], 0, 0);
  return ref::Exp(z) * ref::Exp(y) * ref::Exp(x);
}

static void AtRest(Case & c, TruthEngine & e, double t, const Vector3d & pos, const ref::M3 & rot, const char * what)
{
  std::string w = what;
  CheckNear(c, e.GetBodyPosition(t), pos, 1e-9 * (1 + pos.norm()), w + ": position at rest, t=" + S(t));
  CheckRot(c, e.GetBodyAngularPosition(t), rot, 1e-9, w + ": orientation at rest, t=" + S(t));
  for (auto & v : {e.GetBodyVelocity(t), e.GetBodyAcceleration(t), e.GetBodyAngularRate(t),
    e.GetBodyAngularAcceleration(t)})
  {
    CheckNear(c, v, Vector3d::Zero(), 1e-12, w + ": motion while at rest, t=" + S(t));
  }
}

// ---------------------------------------------------------------------------------------------
static void Cyclic(Gen & g, Case & c)
{
  Vector3d pf, af;
  for (int i = 0; i < 3; ++i) {
    pf[i] = g.Coin(0.15) ? 0.0 : g.Real(0.01, 3.0);
    af[i] = g.Coin(0.15) ? 0.0 : g.Real(0.01, 3.0);
  }
  Vector3d po = Vec(g, 10.0), ao = Vec(g, 2.0);
  double pa = g.Real(-5.0, 5.0), aa = g.Real(-1.5, 1.5), ts = g.Coin(0.3) ? 0.0 : g.Real(0.0, 5.0);
  double max = ts + g.Real(0.5, 30.0);
  TruthEngineCyclic e(pf, af, po, ao, pa, aa, ts, max, Silent());
  if (g.Coin(0.2)) {
    // Frequencies may be changed afterwards
    pf = Vec(g, 2.0).cwiseAbs();
    af = Vec(g, 2.0).cwiseAbs();
    e.SetBodyPosCycleFrequency(pf);
    e.SetBodyAngCycleFrequency(af);
  }
  c.note << "cyclic pos f=" << S(pf) << " a=" << pa << " offset " << S(po) << " ang f=" << S(af) << " a=" << aa
         << " offset " << S(ao) << " stationary " << ts;
  double fp = std::max(pf.maxCoeff(), 0.01), fa = std::max(af.maxCoeff(), 0.01);
  double w = 2 * M_PI * std::max(fp, fa);
  for (int k = 0; k < 6; ++k) {
    double t = ts + g.Real(0.0, 30.0);
    auto wave = [&](const Vector3d & f, double a, const Vector3d & o) {
        Vector3d v;
        for (int i = 0; i < 3; ++i) {v[i] = o[i] + a / 2 * (1 - std::cos(2 * M_PI * f[i] * (t - ts)));}
        return v;
      };
    CheckNear(c, e.GetBodyPosition(t), wave(pf, pa, po), 1e-9 * (1 + std::abs(pa) + po.norm()), "position");
    CheckNear(c, e.GetBodyRollPitchYaw(t), wave(af, aa, ao), 1e-9, "roll, pitch, yaw");
    CheckRot(c, e.GetBodyAngularPosition(t), Zyx(wave(af, aa, ao)), 1e-9, "orientation");
    double h = 1e-3 / std::max(fp, fa);
    if (t - ts < 2 * h) {continue;}
    double sp = std::abs(pa) + 0.01, sa = std::abs(aa) + 0.01;
    CheckNear(c, e.GetBodyVelocity(t), Slope([&](double s) {return e.GetBodyPosition(s);}, t, h),
      1e-7 * sp * w + 1e-12 * (1 + po.norm()) / h, "velocity against the change of position");
    CheckNear(c, e.GetBodyAcceleration(t), Slope([&](double s) {return e.GetBodyVelocity(s);}, t, h),
      1e-7 * sp * w * w, "acceleration against the change of velocity");
    CheckNear(c, e.GetBodyAngularRate(t), TurnSlope(e, t, h), 1e-6 * sa * w * (1 + sa * sa) + 1e-12 / h,
      "angular rate against the change of orientation");
    CheckNear(c, e.GetBodyAngularAcceleration(t), Slope([&](double s) {return e.GetBodyAngularRate(s);}, t, h),
      1e-6 * sa * w * w * (1 + sa * sa), "angular acceleration against the change of angular rate");
  }
  for (int k = 0; k < 2 && ts > 0; ++k) {
    AtRest(c, e, g.Real(0.0, ts) * 0.999, po, Zyx(ao), "cyclic");
    c.Label("stationary");
  }
  if (std::abs(pa) > 0.01 && std::abs(aa) > 0.01 && (pf.array() > 0).any() && (af.array() > 0).all()) {c.NonTrivial();}
}

// ---------------------------------------------------------------------------------------------
static std::vector<Vector3d> Way(Gen & g, int n, double size, bool same)
{
  std::vector<Vector3d> out;
  for (int i = 0; i < n; ++i) {
    if (i == 0) {
      out.push_back(g.Coin(0.3) ? Vector3d::Zero() : Vec(g, size));
    } else if (same) {
      out.push_back(out[0]);
    } else {
      out.push_back(out.back() + UnitVec(g) * size * g.Real(0.3, 1.0));
    }
  }
  return out;
}
static std::vector<double> Flat(const std::vector<Vector3d> & v)
{
  std::vector<double> out;
  for (auto & p : v) {for (int i = 0; i < 3; ++i) {out.push_back(p[i]);}}
  return out;
}
static const std::vector<double> kNone{0, 0, 0};

static void Spline(Gen & g, Case & c)
{
  int n = g.Int(3, 8);
  bool sp = g.Coin(0.1), sa = g.Coin(0.1);
  auto pos = Way(g, n, g.Log(0.1, 5.0), sp), ang = Way(g, n, g.Log(0.02, 0.5), sa);
  double ts = g.Coin(0.3) ? 0.0 : g.Real(0.0, 5.0), span = g.Log(0.5, 60.0), max = ts + span;
  std::vector<double> fa = Flat(ang), fp = Flat(pos);
  // Values that do not make a full way point are ignored
  for (int k = g.Int(0, 2); k > 0; --k) {fp.push_back(99);}
  TruthEngineSpline e(fp, fa, kNone, kNone, ts, max, Silent());
  // The roll, pitch and yaw of the orientation, as positions
  TruthEngineSpline rpy(fa, fa, kNone, kNone, ts, max, Silent());
  c.note << n << " way points over " << span << " s after " << ts << " s:";
  for (int i = 0; i < n; ++i) {c.note << " (" << S(pos[i]) << " / " << S(ang[i]) << ")";}

  // Sizes, for the tolerances
  double mp = 1e-6, ma = 1e-6, mv = 1e-6, mw = 1e-6, mA = 1e-6, mW = 1e-6;
  for (int i = 0; i <= 200; ++i) {
    double t = ts + span * i / 200.0;
    mp = std::max(mp, e.GetBodyPosition(t).norm());
    mv = std::max(mv, e.GetBodyVelocity(t).norm());
    mA = std::max(mA, e.GetBodyAcceleration(t).norm());
    ma = std::max(ma, rpy.GetBodyPosition(t).norm());
    mw = std::max(mw, rpy.GetBodyVelocity(t).norm());
    mW = std::max(mW, rpy.GetBodyAcceleration(t).norm());
  }
  c.Check(std::isfinite(mp + mv + mA + ma + mw + mW), "the motion is finite");
  if (mp > 1e4 || ma > 1e2) {c.Skip();}

  if (ts > 0) {
    AtRest(c, e, g.Real(0.0, ts) * 0.999, pos[0], Zyx(ang[0]), "spline");
    c.Label("stationary");
  }
  // Through the way points, at times in proportion to the distance travelled between them
  auto chords = [&](const std::vector<Vector3d> & v) {
      std::vector<double> u{0.0};
      for (int i = 1; i < n; ++i) {u.push_back(u.back() + (v[i] - v[i - 1]).norm());}
      for (auto & x : u) {x = u.back() > 0 ? x / u.back() : 0.0;}
      return u;
    };
  auto up = chords(pos), ua = chords(ang);
  up.back() = sp ? 0.0 : 1.0;
  for (int i = 0; i < n; ++i) {
    double s = 1 - 1e-12;
    CheckNear(c, e.GetBodyPosition(ts + up[i] * span * s), pos[i], 1e-6 * (mp + mv * span), "position at way point " + S(i));
    CheckRot(c, e.GetBodyAngularPosition(ts + ua[i] * span * s), Zyx(ang[i]), 1e-6 * (1 + ma + mw * span),
      "orientation at way point " + S(i));
  }
  CheckNear(c, e.GetBodyVelocity(ts), Vector3d::Zero(), 1e-6 * mv, "velocity at the start");
  double h = 1e-5 * span;
  for (int k = 0; k < 8; ++k) {
    double t = ts + span * g.Real(1e-3, 1 - 1e-3);
    Vector3d v = e.GetBodyVelocity(t), a = e.GetBodyAcceleration(t), w = e.GetBodyAngularRate(t),
      al = e.GetBodyAngularAcceleration(t);
    CheckNear(c, v, (e.GetBodyPosition(t + h) - e.GetBodyPosition(t - h)) / (2 * h), mA * h * 4 + 1e-10 * (mp + 1) / h,
      "velocity against the change of position, t=" + S(t));
    Vector3d fwd = (e.GetBodyVelocity(t + h) - v) / h, bwd = (v - e.GetBodyVelocity(t - h)) / h;
    double tol = 1e-6 * mA + 1e-10 * (mv + 1) / h;
    for (int i = 0; i < 3; ++i) {
      c.Check(
        a[i] >= std::min(fwd[i], bwd[i]) - tol && a[i] <= std::max(fwd[i], bwd[i]) + tol,
        "acceleration against the change of velocity, t=" + S(t) + " got " + S(a) + " want " + S(fwd) + " or " + S(bwd));
    }
    CheckRot(c, e.GetBodyAngularPosition(t), Zyx(rpy.GetBodyPosition(t)), 1e-9 * (1 + ma), "orientation, t=" + S(t));
    Vector3d turn = Turn(e, t - h, t + h);
    double tw = 4 * (mW + mw * mw) * h + 1e-10 / h;
    if (!((w - turn).cwiseAbs().maxCoeff() <= tw)) {
      CheckNear(c, w, rpy.GetBodyVelocity(t), 1e-9 * (1 + mw), "angular rate (neither of the body nor of roll, pitch and yaw)");
      c.Known("spline-angular-rate", "angular rate against the change of orientation, t=" + S(t) + " got " + S(w) + " want " + S(turn));
      CheckNear(c, al, rpy.GetBodyAcceleration(t), 1e-9 * (1 + mW), "angular acceleration of roll, pitch and yaw");
    } else {
      fwd = (e.GetBodyAngularRate(t + h) - w) / h;
      bwd = (w - e.GetBodyAngularRate(t - h)) / h;
      tol = 1e-6 * (mW + mw * mw) + 1e-10 * (mw + 1) / h + 4 * mw * (mW + mw * mw) * h;
      for (int i = 0; i < 3; ++i) {
        c.Check(al[i] >= std::min(fwd[i], bwd[i]) - tol && al[i] <= std::max(fwd[i], bwd[i]) + tol,
          "angular acceleration against the change of angular rate, t=" + S(t));
      }
    }
  }
  if (sp) {
    c.Label("one position");
    double t = ts + span * g.Real(0.0, 0.99);
    CheckNear(c, e.GetBodyPosition(t), pos[0], 1e-9, "constant position");
    CheckNear(c, e.GetBodyVelocity(t), Vector3d::Zero(), 1e-12, "velocity of a constant position");
    CheckNear(c, e.GetBodyAcceleration(t), Vector3d::Zero(), 1e-12, "acceleration of a constant position");
  }
  if (sa) {
    c.Label("one orientation");
    double t = ts + span * g.Real(0.0, 0.99);
    CheckRot(c, e.GetBodyAngularPosition(t), Zyx(ang[0]), 1e-9, "constant orientation");
    CheckNear(c, e.GetBodyAngularRate(t), Vector3d::Zero(), 1e-12, "angular rate of a constant orientation");
    CheckNear(c, e.GetBodyAngularAcceleration(t), Vector3d::Zero(), 1e-12, "angular acceleration of a constant orientation");
  }
  if (!sp && !sa) {c.NonTrivial();}
}

// ---------------------------------------------------------------------------------------------
static void Smoother(Gen & g, Case & c)
{
  int n = g.Int(2, 10);
  double rate = g.Pick(std::vector<double>{100.0, 250.0, 1000.0});
  std::vector<double> times;
  double t = 0.0;
  for (int i = 0; i < n; ++i) {
    times.push_back(t);
    t += g.Coin() ? g.Real(0.2, 1.5) : 0.5;
  }
  double max = g.Coin(0.3) ? times.back() : times.back() * g.Real(0.5, 1.3);
  double ts = g.Coin() ? 0.0 : g.Real(0.0, 0.3) * std::min(max, times.back());
  auto pos = Way(g, n, g.Log(0.1, 2.0), g.Coin(0.1)), ang = Way(g, n, 0.3, g.Coin(0.1));
  TruthEngineSmoother e(times, Flat(pos), Flat(ang), kNone, kNone, ts, max, rate, Silent());
  c.note << n << " poses until " << times.back() << " s, maximum time " << max << ", stationary " << ts << ", rate " << rate;
  double dt = 1.0 / rate;
  auto line = [&](const std::vector<Vector3d> & v, double s) -> Vector3d {
      for (int i = 0; i + 1 < n; ++i) {
        if (s <= times[i + 1]) {
          double a = (s - times[i]) / (times[i + 1] - times[i]);
          return v[i] + a * (v[i + 1] - v[i]);
        }
      }
      return v.back();
    };
  double mv = 1e-3, mw = 1e-3;
  for (int i = 0; i + 1 < n; ++i) {
    mv = std::max(mv, (pos[i + 1] - pos[i]).norm() / (times[i + 1] - times[i]));
    mw = std::max(mw, (ang[i + 1] - ang[i]).norm() / (times[i + 1] - times[i]));
  }
  double last = std::min(max, times.back()) - 5 * dt;
  // A sample at time zero has no earlier one
  auto between = [&](const Vector3d & x, const Fun & f, double s, double tol, const std::string & what) {
      for (int i = 0; i < 3; ++i) {
        double lo = INFINITY, hi = -INFINITY;
        for (int k = -2; k <= 1; ++k) {
          if (s + k * dt < std::max(ts, 0.0)) {continue;}
          double q = (f(s + (k + 1) * dt)[i] - f(s + k * dt)[i]) / dt;
          lo = std::min(lo, q);
          hi = std::max(hi, q);
        }
        c.Check(x[i] >= lo - tol && x[i] <= hi + tol, what + ", t=" + S(s) + " got " + S(x[i]) + " want " + S(lo) + " to " + S(hi));
      }
    };
  if (last > ts + dt) {
    for (int k = 0; k < 8; ++k) {
      double s = k == 0 ? std::ceil(ts * rate) / rate : g.Real(ts, last);
      bool sample = k == 0 || g.Coin(0.6);
      if (sample) {s = std::ceil(s * rate) / rate;}
      if (s > last) {continue;}
      double loose = sample ? 1e-9 : dt;
      CheckNear(c, e.GetBodyPosition(s), line(pos, s), mv * loose + 1e-9, "position, t=" + S(s));
      CheckRot(c, e.GetBodyAngularPosition(s), Zyx(line(ang, s)), 2 * mw * loose + 1e-9, "orientation, t=" + S(s));
      between(e.GetBodyVelocity(s), [&](double x) {return e.GetBodyPosition(x);}, s, 1e-9 * mv * rate + 1e-9, "velocity");
      between(e.GetBodyAcceleration(s), [&](double x) {return e.GetBodyVelocity(x);}, s, 1e-9 * mv * rate * rate + 1e-9, "acceleration");
      Vector3d w = e.GetBodyAngularRate(s);
      for (int i = 0; i < 3; ++i) {
        double lo = INFINITY, hi = -INFINITY;
        for (int j = -2; j <= 1; ++j) {
          if (s + j * dt < std::max(ts, 0.0)) {continue;}
          double q = Turn(e, s + j * dt, s + (j + 1) * dt)[i];
          lo = std::min(lo, q);
          hi = std::max(hi, q);
        }
        double tol = 4 * mw * mw * dt + 1e-7;
        c.Check(w[i] >= lo - tol && w[i] <= hi + tol, "angular rate, t=" + S(s) + " got " + S(w[i]) + " want " + S(lo) + " to " + S(hi));
      }
      between(e.GetBodyAngularAcceleration(s), [&](double x) {return e.GetBodyAngularRate(x);}, s,
        1e-9 * mw * rate * rate + 1e-9, "angular acceleration");
    }
    c.NonTrivial();
  }
  // Any later time has an answer
  for (int k = 0; k < 4; ++k) {
    double s = max + g.Real(-0.01, 1.0);
    for (auto & v : {e.GetBodyPosition(s), e.GetBodyVelocity(s), e.GetBodyAcceleration(s), e.GetBodyAngularRate(s),
      e.GetBodyAngularAcceleration(s)})
    {
      c.Check(v.allFinite(), "finite after the end");
      // nothing beyond what the poses allow
      c.Check(v.cwiseAbs().maxCoeff() < 1e3 + 20 * (mv + mw) * rate * rate + 100, "bounded after the end, t=" + S(s));
    }
    c.Check(ref::UnitErr(e.GetBodyAngularPosition(s)) < 1e-9, "orientation after the end");
  }
}

// ---------------------------------------------------------------------------------------------
static std::unique_ptr<TruthEngine> AnyEngine(Gen & g, double max)
{
  double ts = g.Real(0.0, 0.5) * max;
  if (g.Coin()) {
    return std::make_unique<TruthEngineCyclic>(
      Vec(g, 1.0).cwiseAbs(), Vec(g, 1.0).cwiseAbs(), Vec(g, 3.0), Vec(g, 1.0), g.Real(-2, 2), g.Real(-1, 1), ts, max, Silent());
  }
  int n = g.Int(3, 5);
  return std::make_unique<TruthEngineSpline>(
    Flat(Way(g, n, 1.0, false)), Flat(Way(g, n, 0.2, false)), kNone, kNone, ts, max, Silent());
}

struct Truths
{
  std::map<unsigned int, Vector3d> ip, ab, gb, cp, bp, gp;
  std::map<unsigned int, Quaterniond> ia, ca, ba;
  std::map<unsigned int, Intrinsics> in;
  Vector3d lla{0, 0, 0};
  double heading{0};
};
static Intrinsics AnyIntrinsics(Gen & g)
{
  Intrinsics k;
  k.f_x = g.Real(0.005, 0.02);
  k.f_y = k.f_x;
  k.width = g.Int(320, 1920);
  k.height = g.Int(240, 1080);
  k.pixel_size = 5e-6;
  return k;
}

// What was set for a sensor is what is answered and written for it, whatever else was set
static void Registry(Gen & g, Case & c)
{
  double max = g.Real(0.5, 4.0);
  auto e = AnyEngine(g, max);
  Truths m;
  unsigned int ni = g.UInt(0, 3), nc = g.UInt(0, 3), ng = g.UInt(0, 2), nb = g.UInt(0, 2);
  // IMUs, then cameras, then antennas are numbered from one
  m.lla = Vector3d(g.Sym(1.5), g.Sym(3.1), g.Real(-100, 9000));
  m.heading = g.Sym(3.1);
  std::vector<std::function<void ()>> sets;
  for (int round = 0; round < 1 + g.Coin(0.3); ++round) {
    for (unsigned int i = 1; i <= ni; ++i) {
      Vector3d p = Vec(g, 5), a = Vec(g, 1), b = Vec(g, 1);
      Quaterniond q = Quat(g);
      sets.push_back([=, &m, &e] {e->SetImuPosition(i, p); m.ip[i] = p;});
      sets.push_back([=, &m, &e] {e->SetImuAngularPosition(i, q); m.ia[i] = q;});
      sets.push_back([=, &m, &e] {e->SetImuAccelerometerBias(i, a); m.ab[i] = a;});
      sets.push_back([=, &m, &e] {e->SetImuGyroscopeBias(i, b); m.gb[i] = b;});
    }
    for (unsigned int i = ni + 1; i <= ni + nc; ++i) {
      Vector3d p = Vec(g, 5);
      Quaterniond q = Quat(g);
      Intrinsics k = AnyIntrinsics(g);
      sets.push_back([=, &m, &e] {e->SetCameraPosition(i, p); m.cp[i] = p;});
      sets.push_back([=, &m, &e] {e->SetCameraAngularPosition(i, q); m.ca[i] = q;});
      sets.push_back([=, &m, &e] {e->SetCameraIntrinsics(i, k); m.in[i] = k;});
    }
    for (unsigned int i = ni + nc + 1; i <= ni + nc + ng; ++i) {
      Vector3d p = Vec(g, 5);
      sets.push_back([=, &m, &e] {e->SetGpsPosition(i, p); m.gp[i] = p;});
    }
    for (unsigned int i = 1; i <= nb; ++i) {
      Vector3d p = Vec(g, 5);
      Quaterniond q = Quat(g);
      sets.push_back([=, &m, &e] {e->SetBoardPosition(i, p); m.bp[i] = p;});
      sets.push_back([=, &m, &e] {e->SetBoardOrientation(i, q); m.ba[i] = q;});
    }
  }
  sets.push_back([&] {e->SetLocalPosition(m.lla);});
  sets.push_back([&] {e->SetLocalHeading(m.heading);});
  for (size_t i = 0; i < sets.size(); ++i) {std::swap(sets[i], sets[g.Draw(sets.size() - 1)]);}
  for (auto & s : sets) {s();}

  auto answers = [&] {
      for (auto & x : m.ip) {c.Check(e->GetImuPosition(x.first) == x.second, "IMU position");}
      for (auto & x : m.ia) {c.Check(e->GetImuAngularPosition(x.first).coeffs() == x.second.coeffs(), "IMU orientation");}
      for (auto & x : m.ab) {c.Check(e->GetImuAccelerometerBias(x.first) == x.second, "accelerometer bias");}
      for (auto & x : m.gb) {c.Check(e->GetImuGyroscopeBias(x.first) == x.second, "gyroscope bias");}
      for (auto & x : m.cp) {c.Check(e->GetCameraPosition(x.first) == x.second, "camera position");}
      for (auto & x : m.ca) {c.Check(e->GetCameraAngularPosition(x.first).coeffs() == x.second.coeffs(), "camera orientation");}
      for (auto & x : m.in) {
        Intrinsics k = e->GetCameraIntrinsics(x.first);
        c.Check(k.f_x == x.second.f_x && k.f_y == x.second.f_y && k.width == x.second.width && k.height == x.second.height &&
          k.pixel_size == x.second.pixel_size, "camera intrinsics");
      }
      for (auto & x : m.gp) {c.Check(e->GetGpsPosition(x.first) == x.second, "antenna position");}
      for (auto & x : m.bp) {c.Check(e->GetBoardPosition(x.first) == x.second, "board position");}
      for (auto & x : m.ba) {c.Check(e->GetBoardOrientation(x.first).coeffs() == x.second.coeffs(), "board orientation");}
      c.Check(e->GetLocalPosition() == m.lla && e->GetLocalHeading() == m.heading, "local frame");
    };
  answers();

  Scratch s;
  double rate = g.Real(1.0, 30.0);
  c.note << ni << " IMUs " << nc << " cameras " << ng << " antennas " << nb << " boards, rate " << rate << ", until " << max;
  e->WriteTruthData(rate, s.dir);
  answers();
  auto rows = Lines(s.dir + "body_truth.csv");
  c.Check(!rows.empty(), "body truth header");
  auto head = Split(rows[0]);
  std::map<std::string, size_t> col;
  for (size_t i = 0; i < head.size(); ++i) {
    c.Check(!col.count(head[i]), "column " + head[i] + " twice");
    col[head[i]] = i;
  }
  // The whole run is covered
  c.Check(rows.size() > 1, "body truth rows");
  double prev = -1;
  for (size_t r = 1; r < rows.size(); ++r) {
    auto v = Split(rows[r]);
    c.Check(v.size() == head.size(), "row " + S(double(r)) + " has " + S(double(v.size())) + " values for " + S(double(head.size())) + " columns");
    double t = (r - 1) / rate;
    double logged = atof(v[0].c_str());
    c.Check(logged > prev, "times increase");
    c.Check(Near(logged, t, 1e-5 * (1 + t)), "time of row " + S(double(r)) + ": " + v[0] + " want " + S(t));
    prev = logged;
    auto match = [&](const std::string & name, const Eigen::VectorXd & want) {
        for (int i = 0; i < want.size(); ++i) {
          std::string n = name + "_" + std::to_string(i);
          c.Check(col.count(n) > 0, "no column " + n);
          c.Check(Near(atof(v[col[n]].c_str()), want[i], 1e-5 * std::abs(want[i]) + 1e-12),
            n + " in row " + S(double(r)) + ": " + v[col[n]] + " want " + S(want[i]));
        }
      };
    auto quat = [](const Quaterniond & q) {return Eigen::Vector4d(q.w(), q.x(), q.y(), q.z());};
    match("body_pos", e->GetBodyPosition(t));
    match("body_vel", e->GetBodyVelocity(t));
    match("body_acc", e->GetBodyAcceleration(t) + g_gravity);
    match("body_ang_pos", quat(e->GetBodyAngularPosition(t)));
    match("body_ang_vel", e->GetBodyAngularRate(t));
    match("body_ang_acc", e->GetBodyAngularAcceleration(t));
    for (auto & x : m.ip) {
      std::string n = std::to_string(x.first);
      match("imu_pos_" + n, x.second);
      match("imu_ang_pos_" + n, quat(m.ia[x.first]));
      match("imu_acc_bias_" + n, m.ab[x.first]);
      match("imu_gyr_bias_" + n, m.gb[x.first]);
    }
    for (auto & x : m.cp) {
      match("cam_pos_" + std::to_string(x.first), x.second);
      match("cam_ang_pos_" + std::to_string(x.first), quat(m.ca[x.first]));
    }
    for (auto & x : m.gp) {match("gps_pos_" + std::to_string(x.first), x.second);}
    if (ng > 0) {
      const char * n[] = {"ref_lat", "ref_lon", "ref_alt", "ref_heading"};
      Eigen::Vector4d want;
      want << m.lla, m.heading;
      for (int i = 0; i < 4; ++i) {
        c.Check(col.count(n[i]) && Near(atof(v[col[n[i]]].c_str()), want[i], 1e-5 * std::abs(want[i]) + 1e-12), n[i]);
      }
    }
  }
  c.Check(prev + 1.0 / rate >= max - 1e-4, "the truth is written until the end");

  auto boards = Lines(s.dir + "board_truth.csv");
  c.Check(boards.size() == (nb > 0 ? 1 + nb : boards.size() > 0), "one line for each board");
  for (size_t r = 1; r < boards.size(); ++r) {
    auto v = Split(boards[r]);
    unsigned int id = atoi(v[0].c_str());
    c.Check(v.size() == 8 && m.bp.count(id), "board line");
    double want[] = {m.bp[id][0], m.bp[id][1], m.bp[id][2], m.ba[id].w(), m.ba[id].x(), m.ba[id].y(), m.ba[id].z()};
    for (int i = 0; i < 7; ++i) {c.Check(Near(atof(v[i + 1].c_str()), want[i], 1e-5 * std::abs(want[i]) + 1e-12), "board value");}
  }
  auto points = Lines(s.dir + "feature_points.csv");
  auto f = e->GetFeatures();
  c.Check(points.size() == 1 + f.size(), "one line for each feature");
  for (size_t r = 1; r < points.size(); r += 1 + g.Int(0, 100)) {
    auto v = Split(points[r]);
    c.Check(v.size() == 4 && atoi(v[0].c_str()) == int(r) - 1, "feature line");
    double want[] = {f[r - 1].x, f[r - 1].y, f[r - 1].z};
    for (int i = 0; i < 3; ++i) {c.Check(Near(atof(v[i + 1].c_str()), want[i], 1e-5 * std::abs(want[i]) + 1e-12), "feature value");}
  }
  if (ni + nc + ng > 1) {c.NonTrivial();}
}

// New features are in view of the camera they are made for; earlier features stay as they are
static void Features(Gen & g, Case & c)
{
  double max = g.Real(0.5, 4.0);
  auto e = AnyEngine(g, max);
  SimRNG::SetSeed(g.UInt(1, 100000));
  auto before = e->GetFeatures();
  c.Check(!before.empty(), "grid features");
  for (auto & p : before) {
    // On the walls of a room around the origin
    double m = std::max({std::abs(p.x), std::abs(p.y), std::abs(p.z)});
    c.Check(m > 1.999 && m < 2.001, "grid feature on a wall");
  }
  int n = g.Int(1, 4);
  c.note << n << " rounds of new features";
  for (unsigned int i = 1; i <= 2; ++i) {
    e->SetCameraPosition(i, Vec(g, 1));
    e->SetCameraAngularPosition(i, Quat(g));
    e->SetCameraIntrinsics(i, AnyIntrinsics(g));
  }
  for (int k = 0; k < n; ++k) {
    unsigned int id = g.UInt(1, 2), count = g.UInt(0, 30);
    double t = g.Real(0.0, max);
    auto after = e->GenerateVisibleFeatures(t, id, count);
    auto now = e->GetFeatures();
    c.Check(after.size() == before.size() + count && now.size() == after.size(), "as many new features as asked for");
    ref::M3 rb = ref::Rot(e->GetBodyAngularPosition(t)), rc = ref::Rot(e->GetCameraAngularPosition(id));
    Vector3d pb = e->GetBodyPosition(t), pc = e->GetCameraPosition(id);
    Intrinsics in = e->GetCameraIntrinsics(id);
    for (size_t i = 0; i < now.size(); ++i) {
      cv::Point3d q = e->GetFeature(i);
      c.Check(q == now[i] && now[i] == after[i], "feature by number");
      if (i < before.size()) {c.Check(now[i] == before[i], "earlier feature moved"); continue;}
      ref::V3 x = rc.transpose() * (rb.transpose() * (Vector3d(q.x, q.y, q.z) - pb).cast<ref::real>() - pc.cast<ref::real>());
      c.Check(x[2] >= 0 && x[2] < 100, "new feature in front of the camera");
      if (x[2] < 1e-6) {continue;}
      double u = x[0] / x[2] * in.f_x / in.pixel_size + in.width / 2, v = x[1] / x[2] * in.f_y / in.pixel_size + in.height / 2;
      c.Check(u >= -0.01 && u <= in.width + 0.01 && v >= -0.01 && v <= in.height + 0.01, "new feature inside the image: " + S(u) + " " + S(v));
      c.NonTrivial();
    }
    before = now;
  }
}

int main(int argc, char ** argv)
{
  Property p;
  p.id = "C18";
  p.rule = "position and orientation both move (motions); more than one sensor (truth files); at least one new feature (features)";
  p.assumptions = {
    "spline way points differ from their neighbours, or are all the same; times up to the maximum time",
    "smoother motion is judged from the stationary time to the last pose, at its sampling resolution",
    "derivatives of the cyclic and spline motion by central differences; sensor numbers as the simulation gives them"};
  p.Add("cyclic", 6000, 400000, Cyclic);
  p.Add("spline", 3000, 150000, Spline);
  p.Add("smoother", 1500, 80000, Smoother);
  p.Add("sensors", 1500, 60000, Registry);
  p.Add("features", 1000, 40000, Features);
  return Main(argc, argv, {p});
}
