// C06: clones of the body pose
#include "clones.hpp"

using namespace clones;

static void History(Gen & g, Case & c)
{
  World w(g, c);
  w.CheckLists(c, "start");
  int steps = g.Int(1, 30);
  for (int k = 0; k < steps; ++k) {w.Step(g, c, k);}
  if (w.added > 0) {c.NonTrivial(); c.Label("added");}
  if (w.dropped > 0) {c.Label("dropped");}
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C06";
  p.rule = "histories of up to 30 operations (predictions, frames of up to 3 cameras, corrections, changes of motion) under every augmentation policy, track lengths 1 to 6, both "
    "covariance forms, against a model of the clones; non-trivial: at least one clone was made";
  p.assumptions.push_back("age limit of the time and error policies accepted between length and length + 1 times the longest frame period");
  p.Add("history", 40000, 1000000, History);
  return pbt::Main(argc, argv, {p});
}
