// C05: prediction
#include "model.hpp"

using namespace model;
typedef Eigen::Matrix<ref::real, Eigen::Dynamic, Eigen::Dynamic> ML;

static void History(Gen & g, Case & c)
{
  bool root = g.Coin(0.4);
  EKF::Parameters params = RandomParams(g, root);
  params.augmenting_type = g.Pick(std::vector<AugmentationType>{AugmentationType::ALL, AugmentationType::PRIMARY, AugmentationType::NONE});
  c.note << (root ? "root " : "standard ");
  c.Label(root ? "root" : "standard");
  Built b = Build(g, c, params, 6, 5);
  EKF & ekf = *b.ekf;
  double t = b.time;
  bool gravity = false, zero_acc = true;
  if (g.Coin(0.7)) {gravity = true; ekf.InitializeGravity(); c.note << "gravity ";}
  int steps = g.Int(1, 12);
  int moved = 0;
  for (int k = 0; k < steps; ++k) {
    c.note << "; ";
    std::string what = "step " + std::to_string(k);
    int op = g.Int(0, 9);
    if (op == 0) {
      gravity = true;
      ekf.InitializeGravity();
      c.Check(ekf.IsGravityInitialized(), "gravity initialisation not reported");
      c.note << "gravity";
      continue;
    }
    if (op == 1) {
      zero_acc = g.Coin();
      ekf.SetZeroAcceleration(zero_acc);
      c.note << "zero acceleration " << zero_acc;
      continue;
    }
    if (op == 2) {
      SetCov(ekf, gen::Spd(g, ekf.GetStateSize(), 1e-4, 1e2));
      c.note << "correlated covariance";
      continue;
    }
    if (op == 3) {
      BodyState body;
      RandomBody(g, body, g.Log(1e-3, 10.0));
      ekf.m_state.body_state = body;
      c.note << "body state";
      continue;
    }
    double dt = g.Coin(0.15) ? 0.0 : (g.Coin(0.2) ? -g.Log(1e-9, 1e2) : g.Log(1e-6, 20.0));
    double to = t + dt;
    dt = to - t;
    c.note << "predict " << dt;
    Values before(ekf.m_state);
    Eigen::MatrixXd p = Full(ekf.m_cov, root);
    Eigen::VectorXd q = Noise(ekf, params.process_noise);
    ekf.PredictModel(to);
    CheckLayout(c, ekf, true);
    if (dt < 0) {
      c.Label("past");
      c.Check(ekf.GetCurrentTime() == t, what + ": time went backwards");
      CheckValues(c, Values(ekf.m_state), before, 0.0, what + ": prediction into the past");
      CheckCov(c, Full(ekf.m_cov, root), p, 1e-13, what + ": prediction into the past");
      continue;
    }
    c.Check(ekf.GetCurrentTime() == to, what + ": current time is " + S(ekf.GetCurrentTime()) + " after a prediction to " + S(to));
    t = to;
    if (!gravity) {
      c.Label("before_gravity");
      CheckValues(c, Values(ekf.m_state), before, 0.0, what + ": prediction before gravity is known");
      CheckCov(c, Full(ekf.m_cov, root), p, 1e-13, what + ": prediction before gravity is known");
      continue;
    }
    if (dt > 0) {++moved;}
    Values want = before;
    Eigen::Vector3d acc = zero_acc ? Eigen::Vector3d(0, 0, 0) : Eigen::Vector3d(before.vec["body acceleration"] - Eigen::Vector3d(0, 0, 9.80665));
    want.vec["body velocity"] += dt * acc;
    want.vec["body position"] += dt * want.vec["body velocity"];
    ref::M3 r = ref::Exp(Eigen::Vector3d(dt * before.vec["body angular velocity"])) * ref::Rot(before.rot["body orientation"]);
    Values got(ekf.m_state);
    CheckRot(c, got.rot["body orientation"], r, 3e-8, what + ": orientation");
    want.rot["body orientation"] = got.rot["body orientation"];
    CheckValues(c, got, want, 1e-10, what);
    int n = ekf.GetStateSize();
    ML f = ML::Identity(n, n);
    for (int i = 0; i < 3; ++i) {f(i, i + 3) = dt;}
    ML pn = f * (p.cast<ref::real>() + ML((q.cast<ref::real>() * static_cast<ref::real>(dt)).asDiagonal())) * f.transpose();
    CheckCov(c, Full(ekf.m_cov, root), pn.cast<double>(), 1e-9, what + ": covariance");
    Eigen::MatrixXd s = ekf.m_cov;
    if (!root) {CheckNear(c, s, s.transpose(), 1e-12 * (1 + s.cwiseAbs().maxCoeff()), what + ": symmetry");}
  }
  if (moved > 0) {c.NonTrivial(); c.Label("moved");}
}

// Time of measurements relative to the start of the filter
static void LocalTime(Gen & g, Case & c)
{
  EKF::Parameters params = RandomParams(g, false);
  BodyState given;
  given.pos_b_in_l = gen::Vec(g, 1e3);
  given.ang_b_to_l = gen::Quat(g);
  params.pos_b_in_l = given.pos_b_in_l;
  params.ang_b_to_l = given.ang_b_to_l;
  params.pos_e_in_g = Eigen::Vector3d(g.Sym(90.0), g.Sym(180.0), g.Sym(1e4));
  params.ang_l_to_e = g.Sym(M_PI);
  params.gps_init_type = g.Pick(std::vector<GpsInitType>{GpsInitType::CONSTANT, GpsInitType::BASELINE_DIST, GpsInitType::ERROR_THRESHOLD});
  params.use_root_covariance = g.Coin();
  EKF ekf(params);
  // a new filter has the pose and local frame of its parameters, and is at rest
  CheckValues(c, Values(ekf.m_state), [&]() {State s; s.body_state = given; return Values(s);} (), 1e-12, "body state of a new filter");
  CheckNear(c, Eigen::Vector3d(ekf.GetReferenceLLA()), params.pos_e_in_g, 0.0, "local frame of a new filter");
  c.Check(ekf.GetReferenceAngle() == params.ang_l_to_e, "heading of the local frame of a new filter");
  c.Check(ekf.IsLlaInitialized() == (params.gps_init_type == GpsInitType::CONSTANT), "local frame known from the start");
  c.Check(!ekf.IsGravityInitialized() && ekf.GetCurrentTime() == 0.0 && ekf.GetStateSize() == 18, "new filter");
  Eigen::MatrixXd p0 = Full(ekf.m_cov, params.use_root_covariance);
  c.Check(p0.rows() == 18 && p0.cols() == 18, "size of the covariance of a new filter");
  CheckNear(c, p0, 1e-2 * Eigen::MatrixXd::Identity(18, 18), 1e-12, "covariance of a new filter");
  bool init = g.Coin(0.3);
  double t0 = g.Sym(1.0) * g.Log(1e-3, 1e9);
  c.note << "first time " << t0 << (init ? " initialised" : "");
  double base = 0.0;
  BodyState body;
  RandomBody(g, body);
  double start = g.Sym(100.0);
  if (init) {
    ekf.Initialize(start, body);
    c.Check(ekf.GetCurrentTime() == start, "initial time not kept");
    CheckValues(c, Values(ekf.m_state), [&]() {State s; s.body_state = body; return Values(s);} (), 0.0, "initial body state");
  } else {
    base = t0;
    c.Check(ekf.CalculateLocalTime(t0) == 0.0, "first measurement is not at the start of the filter");
  }
  int n = g.Int(1, 10);
  for (int i = 0; i < n; ++i) {
    double t = t0 + g.Sym(1.0) * g.Log(1e-3, 1e4);
    double l = ekf.CalculateLocalTime(t);
    c.Check(Near(l, t - base, 1e-12 * (1 + std::abs(t))), "local time of " + S(t) + " is " + S(l));
    if (g.Coin()) {ekf.PredictModel(l);}
  }
  c.NonTrivial();
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C05";
  p.rule = "filters with up to 6 sensors and 5 clones, histories of up to 12 operations (prediction forward, by zero, into the past; gravity; zero-acceleration switch; "
    "new body state; correlated covariance), both covariance forms, steps 1e-6 to 20 s; non-trivial: at least one forward prediction after gravity is known";
  p.assumptions.push_back("at least one sensor is registered before the first prediction");
  p.Add("history", 60000, 1500000, History);
  p.Add("local_time", 60000, 1000000, LocalTime);
  return pbt::Main(argc, argv, {p});
}
