// Small property-based testing engine (choice-sequence based, with shrinking).
//
// Every random decision of a case is one entry of a choice sequence.  A case is
// reproduced by replaying its choices, and shrunk by editing them (deleting
// spans, zeroing, halving).  Cases run in forked workers, so that an assertion,
// crash or hang of the code under test is a failing case and not a lost check.
#ifndef PBT_HPP_
#define PBT_HPP_

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace pbt
{

struct Failure
{
  std::string message;
};
struct Discard {};

// Shared-memory record of a case, so that a parent sees it after a crash
struct Record
{
  static const uint32_t CAP = 1u << 18;
  volatile uint32_t n;
  volatile uint32_t status;  // 0 running, 1 passed, 2 failed, 3 discarded
  char message[4096];
  uint64_t choice[CAP];
};

class Gen
{
public:
  Gen(uint64_t seed, Record * rec);                               // random
  Gen(const std::vector<uint64_t> & choices, Record * rec);       // replay

  // Uniform in [0, bound]; 0 is the simplest choice
  uint64_t Draw(uint64_t bound);

  // Integers in [lo, hi]; shrinks towards lo
  int Int(int lo, int hi) {return lo + static_cast<int>(Draw(static_cast<uint64_t>(hi - lo)));}
  unsigned int UInt(unsigned int lo, unsigned int hi) {return lo + static_cast<unsigned int>(Draw(hi - lo));}
  // True with probability p; shrinks towards false
  bool Coin(double p = 0.5) {return Unit() > 1.0 - p;}
  // [0, 1)
  double Unit() {return static_cast<double>(Draw((1ull << 32) - 1)) / 4294967296.0;}
  // Real in [lo, hi]; shrinks towards 0 if contained, else towards lo
  double Real(double lo, double hi);
  // Symmetric real in [-a, a]; shrinks towards 0
  double Sym(double a) {return Real(-a, a);}
  // Log-uniform magnitude in [lo, hi] (both > 0); shrinks towards 1 or the nearest bound
  double Log(double lo, double hi);
  // Roughly normal
  double Normal();
  template<class T> const T & Pick(const std::vector<T> & v) {return v[Draw(v.size() - 1)];}

  size_t Used() const {return m_pos;}

private:
  bool m_replay;
  uint64_t m_state;
  std::vector<uint64_t> m_choices;
  size_t m_pos{0};
  Record * m_rec;
};

class Case
{
public:
  // Counted in the evidence
  void Label(const std::string & l) {labels[l]++;}
  // Marks the case as non-trivial, by the rule stated for the property
  void NonTrivial() {nontrivial = true;}
  // Human-readable description of the case (sample and replay output)
  std::ostringstream note;

  [[noreturn]] void Fail(const std::string & m) {throw Failure{m};}
  void Check(bool ok, const std::string & m) {if (!ok) {throw Failure{m};}}
  // A violation that known_findings.txt may list under the key: fails if it does not
  void Known(const std::string & key, const std::string & m);
  [[noreturn]] void Skip() {throw Discard{};}

  bool nontrivial{false};
  std::map<std::string, uint64_t> labels;
};

typedef std::function<void (Gen &, Case &)> Clause;

struct Spec
{
  std::string name;
  Clause fn;
  uint64_t quick;      // cases in the quick tier
  uint64_t thorough;   // cases in the thorough tier
  double case_timeout; // seconds
};

struct Property
{
  std::string id;
  std::string rule;
  std::vector<std::string> assumptions;
  std::vector<Spec> clauses;
  void Add(
    const std::string & name, uint64_t quick, uint64_t thorough, Clause fn,
    double case_timeout = 20.0)
  {
    clauses.push_back(Spec{name, fn, quick, thorough, case_timeout});
  }
};

// Runs a property: handles --replay FILE, VERIF_SEED and VERIF_TIER
int Main(int argc, char ** argv, const std::vector<Property> & properties);

// Formatting helpers
template<class T> std::string Str(const T & t) {std::ostringstream o; o.precision(17); o << t; return o.str();}

}  // namespace pbt

#endif  // PBT_HPP_
