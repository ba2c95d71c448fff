// C07: body pose at the time of a frame
#include "clones.hpp"

using namespace clones;

static void Query(Gen & g, Case & c, World & w)
{
  EKF & ekf = *w.ekf;
  unsigned int cam = g.Pick(w.cams);
  auto & list = w.Actual(w.Key(cam));
  if (list.empty()) {return;}
  if (!w.Interpolated(cam)) {
    size_t i = g.Draw(list.size() - 1);
    AugState got = ekf.GetAugState(cam, list[i].frame_id, g.Sym(1000.0));
    std::string what = "frame " + std::to_string(list[i].frame_id) + " of camera " + std::to_string(cam);
    CheckNear(c, got.pos_b_in_l, list[i].pos_b_in_l, 0.0, what + ": position");
    CheckRot(c, got.ang_b_to_l, list[i].ang_b_to_l, 1e-12, what + ": orientation");
    c.Check(got.index == list[i].index, what + ": index is " + std::to_string(got.index) + " instead of " + std::to_string(list[i].index));
    c.Check(got.alpha == 0.0, what + ": is a clone, but is reported as between two");
    c.Check(got.time == list[i].time, what + ": time");
    c.Label("by_frame");
    c.NonTrivial();
    return;
  }
  double first = list.front().time, last = list.back().time, now = ekf.GetCurrentTime();
  double t;
  switch (g.Int(0, 4)) {
    case 0: t = first - g.Log(1e-3, 1.0); break;
    case 1: t = g.Pick(list).time; break;
    case 2: t = now; break;
    case 3: t = last + g.Unit() * (now - last); break;
    default: t = first + g.Unit() * (last - first);
  }
  if (t > now) {t = now;}
  std::string what = "pose at " + S(t) + " (clones from " + S(first) + " to " + S(last) + ", now " + S(now) + ")";
  AugState got = ekf.GetAugState(cam, g.UInt(0, 50), t);
  c.Check(got.pos_b_in_l.allFinite() && got.ang_b_to_l.coeffs().allFinite(), what + " is not finite");
  c.Check(got.time == t, what + ": time");
  c.Check(got.alpha >= 0 && got.alpha <= 1, what + ": weight " + S(got.alpha));
  // the pair of clones around it
  int k = -1;
  for (size_t i = 0; i < list.size(); ++i) {if (list[i].index == got.index) {k = static_cast<int>(i);}}
  c.Check(k >= 0, what + ": index " + std::to_string(got.index) + " is not that of a clone");
  if (t < first) {
    c.Check(k == 0 && got.alpha == 0.0, what + ": should be the first clone");
    CheckNear(c, got.pos_b_in_l, list[0].pos_b_in_l, 1e-12 * (1 + list[0].pos_b_in_l.norm()), what + ": position");
    CheckRot(c, got.ang_b_to_l, list[0].ang_b_to_l, 1e-9, what + ": orientation");
    c.Label("before_first");
    return;
  }
  bool end = k + 1 == static_cast<int>(list.size());
  double t0 = list[k].time, t1 = end ? now : list[k + 1].time;
  c.Check(t0 <= t && t <= t1, what + ": is not between the clones used, " + S(t0) + " and " + S(t1));
  double alpha = t1 > t0 ? (t - t0) / (t1 - t0) : 0.0;
  c.Check(Near(got.alpha, alpha, 1e-9), what + ": weight is " + S(got.alpha) + " instead of " + S(alpha));
  Eigen::Vector3d p0 = list[k].pos_b_in_l, p1 = end ? ekf.m_state.body_state.pos_b_in_l : list[k + 1].pos_b_in_l;
  Eigen::Quaterniond q0 = list[k].ang_b_to_l, q1 = end ? ekf.m_state.body_state.ang_b_to_l : list[k + 1].ang_b_to_l;
  CheckNear(c, got.pos_b_in_l, Eigen::Vector3d(p0 + alpha * (p1 - p0)), 1e-9 * (1 + p0.norm() + p1.norm()), what + ": position");
  ref::M3 d = ref::Rot(q0).transpose() * ref::Rot(q1);
  c.Label(end ? "after_last" : "between");
  if (alpha > 0) {c.NonTrivial(); c.Label("interpolated");}
  if (ref::Ang(d, ref::M3(ref::M3::Identity())) > 3.1) {return;}  // either way round
  ref::V3 v = ref::Log(d);
  CheckRot(c, got.ang_b_to_l, ref::M3(ref::Rot(q0) * ref::Exp(Eigen::Vector3d((v * static_cast<ref::real>(alpha)).cast<double>()))), 1e-7, what + ": orientation");
}

static void History(Gen & g, Case & c)
{
  World w(g, c);
  int steps = g.Int(1, 20);
  for (int k = 0; k < steps; ++k) {
    w.Step(g, c, k);
    int n = g.Int(0, 2);
    for (int i = 0; i < n; ++i) {Query(g, c, w);}
  }
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C07";
  p.rule = "the histories of C06 with up to 2 pose look-ups after each operation (before, between, on and after the clones; by frame for cloned cameras); non-trivial: a look-up of a "
    "cloned frame or strictly between two poses";
  p.assumptions.push_back("at least one clone exists and the time asked for is not in the future");
  p.Add("history", 60000, 1500000, History);
  return pbt::Main(argc, argv, {p});
}
