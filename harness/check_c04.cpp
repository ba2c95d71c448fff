// C04: the square-root form gives the same estimates as the standard form
#include "history.hpp"

using namespace history;

static void Compare(Case & c, World & a, World & b, double tol, const std::string & what)
{
  Values va(a.ekf->m_state), vb(b.ekf->m_state);
  c.Check(a.ekf->GetStateSize() == b.ekf->GetStateSize(), what + ": sizes differ");
  c.Check(a.ekf->GetCurrentTime() == b.ekf->GetCurrentTime(), what + ": times differ");
  CheckValues(c, vb, va, tol, what + ": root form against standard form");
  CheckCov(c, Full(b.ekf->m_cov, true), Full(a.ekf->m_cov, false), tol, what + ": root form against standard form");
}

static void History(Gen & g, Case & c)
{
  Limits lim;
  Sensors s = RandomSensors(g, c, lim);
  size_t registered = 1 + g.Draw(s.regs.size() - 1);
  World a(s, false, registered), b(s, true, registered);
  unsigned int frame = 1;
  Compare(c, a, b, 1e-9, "after registration");
  int steps = g.Int(1, 25);
  int updates = 0;
  for (int k = 0; k < steps; ++k) {
    Op op = NextOp(g, c, a, frame, s.regs.size(), registered);
    a.Apply(op);
    b.Apply(op);
    if (!Values(a.ekf->m_state).vec["body position"].allFinite()) {c.Skip();}
    Compare(c, a, b, 1e-6, "step " + std::to_string(k));
    if (op.kind != Op::PREDICT && op.kind != Op::GRAVITY && op.kind != Op::REGISTER && op.kind != Op::FRAME) {++updates;}
  }
  if (updates > 0) {c.NonTrivial();}
  if (updates > 5) {c.Label("more_than_5_updates");}
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C04";
  p.rule = "the same history (registrations, predictions, frames, IMU, GPS, fiducial and feature-track updates, up to 25 operations) on a filter in standard and one in "
    "square-root form, random sensors and configuration; non-trivial: at least one measurement update";
  p.assumptions.push_back("diagonal initial covariances, as the sensors provide");
  p.Add("history", 30000, 600000, History);
  return pbt::Main(argc, argv, {p});
}
