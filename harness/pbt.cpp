#include "pbt.hpp"

#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>

namespace pbt
{

static uint64_t SplitMix(uint64_t & s)
{
  s += 0x9E3779B97F4A7C15ull;
  uint64_t z = s;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

static uint64_t HashStr(const std::string & s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) {h = (h ^ c) * 1099511628211ull;}
  return h;
}

static double Now()
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

// Findings of the property that known_findings.txt lists: key -> description
static std::map<std::string, std::string> g_known;

static void LoadKnown(const std::string & id)
{
  g_known.clear();
  const char * file = getenv("VERIF_KNOWN");
  if (!file) {return;}
  std::ifstream in(file);
  std::string line, head = "known: property=" + id + " key=";
  while (std::getline(in, line)) {
    if (line.compare(0, head.size(), head) != 0) {continue;}
    size_t k = line.find(' ', head.size());
    if (k == std::string::npos) {continue;}
    g_known[line.substr(head.size(), k - head.size())] = line.substr(k + 1);
  }
}

void Case::Known(const std::string & key, const std::string & m)
{
  if (!g_known.count(key)) {Fail(m);}
  Label("known:" + key);
}

Gen::Gen(uint64_t seed, Record * rec) : m_replay(false), m_state(seed), m_rec(rec) {rec->n = 0;}
Gen::Gen(const std::vector<uint64_t> & choices, Record * rec)
: m_replay(true), m_state(0), m_choices(choices), m_rec(rec) {rec->n = 0;}

uint64_t Gen::Draw(uint64_t bound)
{
  uint64_t v;
  if (m_replay) {
    v = m_pos < m_choices.size() ? m_choices[m_pos] : 0;
    if (v > bound) {v = bound;}
  } else if (bound == ~0ull) {
    v = SplitMix(m_state);
  } else {
    v = static_cast<uint64_t>((static_cast<unsigned __int128>(SplitMix(m_state)) * (bound + 1)) >> 64);
  }
  if (m_pos < Record::CAP) {
    m_rec->choice[m_pos] = v;
    m_rec->n = static_cast<uint32_t>(m_pos + 1);
  } else {
    throw Discard{};
  }
  ++m_pos;
  return v;
}

double Gen::Real(double lo, double hi)
{
  double u = Unit();
  if (lo < 0.0 && hi > 0.0) {
    // fold so that u = 0 maps to 0
    double x = u * (hi - lo);
    // alternate: values below hi are positive, the rest negative
    return x <= hi ? x : hi - x;
  }
  if (hi <= 0.0) {return hi - u * (hi - lo);}
  return lo + u * (hi - lo);
}

double Gen::Log(double lo, double hi)
{
  double a = std::log(lo), b = std::log(hi);
  return std::exp(Real(a, b));
}

double Gen::Normal()
{
  double s = 0;
  for (int i = 0; i < 4; ++i) {s += Sym(1.0);}
  return s * 0.8660254;
}

// --------------------------------------------------------------------------------------------
static Record * MapRecord()
{
  void * p = mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {perror("mmap"); exit(2);}
  return static_cast<Record *>(p);
}

static void Quiet()
{
  int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  dup2(fd, 2);
  close(fd);
}

static void SetMessage(Record * r, const std::string & m)
{
  size_t n = std::min(m.size(), sizeof(r->message) - 1);
  memcpy(r->message, m.data(), n);
  r->message[n] = 0;
}

// Runs one case in this process; returns the status
static int RunCase(const Spec & s, Gen & g, Case & c, Record * r)
{
  r->message[0] = 0;
  r->status = 0;
  try {
    s.fn(g, c);
    r->status = 1;
  } catch (const Failure & f) {
    SetMessage(r, f.message);
    r->status = 2;
  } catch (const Discard &) {
    r->status = 3;
  } catch (const std::exception & e) {
    SetMessage(r, std::string("exception: ") + e.what());
    r->status = 2;
  } catch (...) {
    SetMessage(r, "unknown exception");
    r->status = 2;
  }
  return r->status;
}

struct Outcome
{
  int status;           // 1 pass, 2 fail, 3 discard
  std::string message;
  std::vector<uint64_t> choices;
  std::string note;
};

// Runs the choices in a child process
static Outcome RunForked(const Spec & s, const std::vector<uint64_t> & choices, bool want_note)
{
  static Record * r = MapRecord();
  r->n = 0;
  r->status = 0;
  r->message[0] = 0;
  int fds[2];
  if (pipe(fds) != 0) {perror("pipe"); exit(2);}
  pid_t pid = fork();
  if (pid == 0) {
    close(fds[0]);
    Quiet();
    Gen g(choices, r);
    Case c;
    c.note.precision(17);
    RunCase(s, g, c, r);
    std::string note = c.note.str();
    if (want_note) {
      size_t off = 0;
      while (off < note.size()) {
        ssize_t k = write(fds[1], note.data() + off, note.size() - off);
        if (k <= 0) {break;}
        off += k;
      }
    }
    _exit(0);
  }
  close(fds[1]);
  Outcome o;
  double t0 = Now();
  fcntl(fds[0], F_SETFL, O_NONBLOCK);
  bool timeout = false;
  int st = 0;
  char buf[4096];
  for (;; ) {
    ssize_t k;
    while ((k = read(fds[0], buf, sizeof buf)) > 0) {o.note.append(buf, k);}
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) {break;}
    if (Now() - t0 > s.case_timeout) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      timeout = true;
      break;
    }
    usleep(200);
  }
  ssize_t k;
  while ((k = read(fds[0], buf, sizeof buf)) > 0) {o.note.append(buf, k);}
  close(fds[0]);
  o.choices.assign(const_cast<uint64_t *>(r->choice), const_cast<uint64_t *>(r->choice) + r->n);
  if (timeout) {
    o.status = 2;
    o.message = "hang: case exceeded its time limit";
  } else if (WIFSIGNALED(st)) {
    o.status = 2;
    o.message = "crash: signal " + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")";
  } else if (r->status == 0) {
    o.status = 2;
    o.message = "the code under test ended the process";
  } else {
    o.status = r->status;
    o.message = r->message;
  }
  return o;
}

static bool Simpler(const std::vector<uint64_t> & a, const std::vector<uint64_t> & b)
{
  if (a.size() != b.size()) {return a.size() < b.size();}
  return a < b;
}

static Outcome Shrink(const Spec & s, Outcome best, double budget)
{
  double t0 = Now();
  auto attempt = [&](const std::vector<uint64_t> & cand) -> bool {
      if (Now() - t0 > budget || !Simpler(cand, best.choices)) {return false;}
      Outcome o = RunForked(s, cand, false);
      if (o.status == 2) {
        // drop unused tail
        if (o.choices.size() > cand.size()) {o.choices.resize(cand.size());}
        if (Simpler(o.choices, best.choices) || o.choices == cand) {
          best = o;
          return true;
        }
      }
      return false;
    };
  bool progress = true;
  while (progress && Now() - t0 < budget) {
    progress = false;
    // delete spans
    for (size_t len = std::max<size_t>(1, best.choices.size() / 2); len >= 1; len /= 2) {
      size_t i = 0;
      while (i + len <= best.choices.size() && Now() - t0 < budget) {
        std::vector<uint64_t> c = best.choices;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (attempt(c)) {progress = true;} else {i += len;}
      }
      // zero spans
      for (i = 0; i + len <= best.choices.size() && Now() - t0 < budget; i += len) {
        std::vector<uint64_t> c = best.choices;
        std::fill(c.begin() + i, c.begin() + i + len, 0);
        if (c != best.choices && attempt(c)) {progress = true;}
      }
      if (len == 1) {break;}
    }
    // reduce single values
    for (size_t i = 0; i < best.choices.size() && Now() - t0 < budget; ++i) {
      uint64_t lo = 0;
      while (i < best.choices.size() && lo < best.choices[i] && Now() - t0 < budget) {
        uint64_t mid = lo + (best.choices[i] - lo) / 2;
        std::vector<uint64_t> c = best.choices;
        c[i] = mid;
        if (attempt(c)) {progress = true;} else {lo = mid + 1;}
        if (best.choices.size() <= i || (best.choices[i] - lo) < (best.choices[i] >> 12)) {break;}
      }
    }
  }
  return best;
}

static std::string Json(const std::string & s)
{
  std::string o = "\"";
  for (unsigned char ch : s) {
    switch (ch) {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\n': o += "\\n"; break;
      case '\t': o += "\\t"; break;
      default:
        if (ch < 0x20 || ch > 0x7e) {
          char b[8];
          snprintf(b, sizeof b, "\\u%04x", ch);
          o += b;
        } else {
          o += static_cast<char>(ch);
        }
    }
  }
  return o + "\"";
}

struct WorkerShared
{
  volatile uint64_t current;  // case index being run (~0: none)
  volatile double started;
};

struct ClauseResult
{
  uint64_t evaluations{0}, discarded{0};
  std::unordered_set<uint64_t> nontrivial;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  bool failed{false};
  Outcome failure;
  int worker{0};
  uint64_t index{0};
};

static uint64_t CaseSeed(uint64_t seed, const std::string & id, const std::string & clause, uint64_t i)
{
  uint64_t s = seed * 0x9E3779B97F4A7C15ull + HashStr(id + "/" + clause) + i * 0xD1342543DE82EF95ull;
  SplitMix(s);
  return SplitMix(s);
}

static ClauseResult RunClause(
  const Property & p, const Spec & s, uint64_t seed, uint64_t cases, int workers,
  double time_cap, const std::string & tmp)
{
  ClauseResult res;
  std::vector<Record *> recs;
  std::vector<pid_t> pids(workers, -1);
  WorkerShared * ws = static_cast<WorkerShared *>(mmap(
      nullptr, sizeof(WorkerShared) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  double t0 = Now();
  for (int w = 0; w < workers; ++w) {recs.push_back(MapRecord());}
  for (int w = 0; w < workers; ++w) {
    ws[w].current = ~0ull;
    ws[w].started = Now();
    pid_t pid = fork();
    if (pid == 0) {
      Quiet();
      std::unordered_set<uint64_t> nt;
      std::map<std::string, uint64_t> labels;
      std::vector<std::string> samples;
      uint64_t n = 0, d = 0;
      for (uint64_t i = w; i < cases; i += workers) {
        if (Now() - t0 > time_cap) {break;}
        ws[w].current = i;
        ws[w].started = Now();
        Gen g(CaseSeed(seed, p.id, s.name, i), recs[w]);
        Case c;
        c.note.precision(8);
        int st = RunCase(s, g, c, recs[w]);
        ++n;
        if (st == 2) {_exit(7);}
        if (st == 3) {++d; continue;}
        for (auto & l : c.labels) {labels[l.first] += l.second;}
        if (c.nontrivial) {
          uint64_t h = 1469598103934665603ull;
          for (uint32_t k = 0; k < recs[w]->n; ++k) {h = (h ^ recs[w]->choice[k]) * 1099511628211ull; h ^= h >> 29;}
          nt.insert(h);
          if (samples.size() < 2 && w < 2) {samples.push_back(c.note.str());}
        }
      }
      ws[w].current = ~0ull;
      std::ofstream o(tmp + "/w" + std::to_string(w), std::ios::binary);
      o << n << " " << d << " " << nt.size() << " " << labels.size() << " " << samples.size() << "\n";
      for (auto h : nt) {o << h << "\n";}
      for (auto & l : labels) {o << l.second << " " << l.first << "\n";}
      for (auto & t : samples) {o << t.size() << "\n" << t;}
      o.close();
      _exit(o ? 0 : 9);
    }
    pids[w] = pid;
  }
  int alive = workers;
  int failed = -1;
  std::string how;
  while (alive > 0) {
    for (int w = 0; w < workers; ++w) {
      if (pids[w] < 0) {continue;}
      int st;
      pid_t q = waitpid(pids[w], &st, WNOHANG);
      if (q == pids[w]) {
        pids[w] = -1;
        --alive;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {failed = w; how = "died";}
      } else if (ws[w].current != ~0ull && Now() - ws[w].started > s.case_timeout) {
        kill(pids[w], SIGKILL);
        waitpid(pids[w], &st, 0);
        pids[w] = -1;
        --alive;
        failed = w;
        how = "hang";
      }
    }
    if (failed >= 0) {
      for (int w = 0; w < workers; ++w) {
        if (pids[w] > 0) {
          kill(pids[w], SIGKILL);
          int st;
          waitpid(pids[w], &st, 0);
        }
      }
      break;
    }
    usleep(2000);
  }
  if (failed >= 0) {
    res.failed = true;
    Record * r = recs[failed];
    res.failure.status = 2;
    res.worker = failed;
    res.index = ws[failed].current;
    res.failure.choices.assign(
      const_cast<uint64_t *>(r->choice), const_cast<uint64_t *>(r->choice) + r->n);
    res.failure.message = r->status == 2 ? r->message : ("worker " + how);
  } else {
    for (int w = 0; w < workers; ++w) {
      std::ifstream in(tmp + "/w" + std::to_string(w), std::ios::binary);
      uint64_t n = 0, d = 0, a = 0, b = 0, c = 0;
      in >> n >> d >> a >> b >> c;
      res.evaluations += n;
      res.discarded += d;
      for (uint64_t i = 0; i < a; ++i) {uint64_t h; in >> h; res.nontrivial.insert(h);}
      for (uint64_t i = 0; i < b; ++i) {
        uint64_t k; std::string l; in >> k; in.get(); std::getline(in, l); res.labels[l] += k;
      }
      for (uint64_t i = 0; i < c; ++i) {
        size_t k; in >> k; in.get(); std::string t(k, 0); in.read(&t[0], k); res.samples.push_back(t);
      }
      unlink((tmp + "/w" + std::to_string(w)).c_str());
    }
  }
  for (auto r : recs) {munmap(r, sizeof(Record));}
  munmap(ws, sizeof(WorkerShared) * workers);
  return res;
}

// A failure may need the cases that ran before it in the same process (state kept between calls):
// runs the worker's cases up to the failing one again, in a new process
static Outcome RunSequence(
  const Property & p, const Spec & s, uint64_t seed, int workers, uint64_t w, uint64_t last)
{
  static Record * r = MapRecord();
  r->n = 0;
  r->status = 0;
  r->message[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    Quiet();
    for (uint64_t i = w; i <= last; i += workers) {
      Gen g(CaseSeed(seed, p.id, s.name, i), r);
      Case c;
      if (RunCase(s, g, c, r) == 2) {_exit(7);}
    }
    _exit(0);
  }
  int st = 0;
  double t0 = Now();
  Outcome o;
  o.status = 1;
  while (waitpid(pid, &st, WNOHANG) != pid) {
    if (Now() - t0 > 150.0) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      return o;
    }
    usleep(1000);
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {return o;}
  o.status = 2;
  o.message = r->status == 2 ? std::string(r->message) : std::string("crash after a sequence of cases");
  o.choices.assign(const_cast<uint64_t *>(r->choice), const_cast<uint64_t *>(r->choice) + r->n);
  return o;
}

static int Replay(const std::vector<Property> & properties, const std::string & file)
{
  std::ifstream in(file);
  std::string id, clause, line;
  std::vector<uint64_t> choices;
  bool body = false;
  uint64_t sq_seed = 0, sq_w = 0, sq_last = 0;
  int sq_workers = 0;
  while (std::getline(in, line)) {
    if (line.compare(0, 9, "property ") == 0) {id = line.substr(9);}
    else if (line.compare(0, 7, "clause ") == 0) {clause = line.substr(7);}
    else if (line.compare(0, 9, "sequence ") == 0) {std::istringstream q(line.substr(9)); q >> sq_seed >> sq_workers >> sq_w >> sq_last;}
    else if (line == "choices") {body = true;}
    else if (line == "end") {body = false;}
    else if (body) {std::istringstream s(line); uint64_t v; while (s >> v) {choices.push_back(v);}}
  }
  for (auto & p : properties) {
    if (p.id != id) {continue;}
    LoadKnown(id);
    for (auto & s : p.clauses) {
      if (s.name != clause) {continue;}
      Outcome o = sq_workers > 0 ? RunSequence(p, s, sq_seed, sq_workers, sq_w, sq_last) :
        RunForked(s, choices, true);
      std::cout << "clause: " << clause << "\n" << o.note << "\n";
      std::cout << (o.status == 2 ? "FAILS: " + o.message : std::string("passes")) << std::endl;
      if (o.status == 2) {std::cout << "VIOLATION property=" << id << " replay=" << file << std::endl;}
      return o.status == 2 ? 1 : 0;
    }
  }
  std::cerr << "replay file not understood\n";
  return 2;
}

int Main(int argc, char ** argv, const std::vector<Property> & properties)
{
  std::string replay, only, replay_dir = ".", evidence_dir = ".", property;
  double scale = 1.0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() {return i + 1 < argc ? std::string(argv[++i]) : std::string();};
    if (a == "--replay") {replay = next();}
    else if (a == "--clause") {only = next();}
    else if (a == "--replay-dir") {replay_dir = next();}
    else if (a == "--evidence-dir") {evidence_dir = next();}
    else if (a == "--property") {property = next();}
    else if (a == "--scale") {scale = atof(next().c_str());}
  }
  if (!replay.empty()) {return Replay(properties, replay);}
  const char * e = getenv("VERIF_SEED");
  uint64_t seed = e ? strtoull(e, nullptr, 10) : 1;
  const char * t = getenv("VERIF_TIER");
  std::string tier = (t && std::string(t) == "thorough") ? "thorough" : "quick";
  int workers = 8;
  char tmpl[] = "/tmp/pbtXXXXXX";
  if (!mkdtemp(tmpl)) {perror("mkdtemp"); return 2;}
  std::string tmp = tmpl;
  int rc = 0;
  for (auto & p : properties) {
    if (!property.empty() && p.id != property) {continue;}
    double t0 = Now();
    LoadKnown(p.id);
    std::set<std::string> seen;
    std::vector<std::pair<std::string, ClauseResult>> results;
    int violations = 0;
    uint64_t ev = 0, dn = 0, dis = 0;
    // keep the whole check inside its time limit, whatever the machine
    double cap_total = tier == "quick" ? 420.0 : 3600.0;
    for (size_t k = 0; k < p.clauses.size(); ++k) {
      auto & s = p.clauses[k];
      if (!only.empty() && s.name != only) {continue;}
      uint64_t n = tier == "quick" ? s.quick : s.thorough;
      n = static_cast<uint64_t>(std::ceil(n * scale));
      double left = cap_total - (Now() - t0);
      double cap = std::max(5.0, left / (p.clauses.size() - k));
      ClauseResult r = RunClause(p, s, seed, n, workers, cap, tmp);
      if (r.failed) {
        // confirm outside the worker, shrink, confirm again
        int again = 0;
        for (int j = 0; j < 3; ++j) {again += RunForked(s, r.failure.choices, false).status == 2;}
        Outcome o = r.failure;
        bool sequence = false;
        if (again == 0) {
          for (int j = 0; j < 2; ++j) {
            again += RunSequence(p, s, seed, workers, r.worker, r.index).status == 2;
          }
          sequence = again == 2;
          if (!sequence) {again = 0;}
        }
        if (again == 3) {o = Shrink(s, r.failure, 45.0);}
        Outcome fin = RunForked(s, o.choices, true);
        if (sequence) {o.note = "(fails only after the cases before it in the same process)";} else if (fin.status == 2) {o = fin;} else {o.note = "(not reproduced in isolation)";}
        mkdir(replay_dir.c_str(), 0777);
        std::string path = replay_dir + "/" + p.id + "_" + s.name + ".replay";
        {
          std::ofstream f(path);
          f << "property " << p.id << "\nclause " << s.name << "\nmessage " << o.message << "\n";
          if (sequence) {
            f << "sequence " << seed << " " << workers << " " << r.worker << " " << r.index << "\n";
          }
          f << "choices\n";
          for (auto c : o.choices) {f << c << "\n";}
          f << "end\n" << o.note << "\n";
        }
        std::cout << "clause " << s.name << " FAILED: " << o.message << "\n";
        std::cout << o.note << "\n";
        std::cout << "reproduced " << again << "/3; shrunk to " << o.choices.size() << " choices\n";
        if (again > 0) {
          ++violations;
          rc = 1;
          std::cout << "VIOLATION property=" << p.id << " replay=" << path << std::endl;
        } else {
          std::cout << "not reproducible: ignored" << std::endl;
        }
      }
      std::cout << p.id << "." << s.name << ": " << r.evaluations << " cases, " << r.nontrivial.size()
                << " distinct non-trivial, " << r.discarded << " discarded";
      for (auto & l : r.labels) {std::cout << " " << l.first << "=" << l.second;}
      std::cout << " t=" << (Now() - t0) << std::endl;
      for (auto & l : r.labels) {
        if (l.first.compare(0, 6, "known:") == 0) {seen.insert(l.first.substr(6));}
      }
      ev += r.evaluations;
      dn += r.nontrivial.size();
      dis += r.discarded;
      results.emplace_back(s.name, std::move(r));
      if (violations > 0) {break;}
    }
    for (auto & k : seen) {
      std::cout << "KNOWN-FINDING: property=" << p.id << " " << g_known[k] << std::endl;
    }
    mkdir(evidence_dir.c_str(), 0777);
    std::ofstream f(evidence_dir + "/" + p.id + ".json");
    f << "{\n \"property\": " << Json(p.id) << ",\n \"tier\": " << Json(tier) << ",\n \"seed\": " << seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << ev
      << ",\n  \"distinct_nontrivial\": " << dn << ",\n  \"discarded\": " << dis
      << ",\n  \"rule\": " << Json(p.rule) << ",\n  \"clauses\": [";
    bool first = true;
    for (auto & r : results) {
      f << (first ? "\n   {" : ",\n   {") << "\"name\": " << Json(r.first) << ", \"evaluations\": " << r.second.evaluations
        << ", \"distinct_nontrivial\": " << r.second.nontrivial.size() << ", \"labels\": {";
      bool lf = true;
      for (auto & l : r.second.labels) {f << (lf ? "" : ", ") << Json(l.first) << ": " << l.second; lf = false;}
      f << "}}";
      first = false;
    }
    f << "\n  ],\n  \"samples\": [";
    first = true;
    for (auto & r : results) {
      size_t k = 0;
      for (auto & smp : r.second.samples) {
        if (k++ >= 3) {break;}
        f << (first ? "\n   " : ",\n   ") << Json("[" + r.first + "] " + smp.substr(0, 1200));
        first = false;
      }
      if (r.second.failed) {
        f << (first ? "\n   " : ",\n   ") << Json("[" + r.first + "] FAILED: " + r.second.failure.message);
        first = false;
      }
    }
    f << "\n  ]\n },\n \"assumptions\": [";
    first = true;
    for (auto & a : p.assumptions) {f << (first ? "" : ", ") << Json(a); first = false;}
    f << "],\n \"wall_s\": " << (Now() - t0) << ",\n \"violations\": " << violations << "\n}\n";
  }
  rmdir(tmp.c_str());
  return rc;
}

}  // namespace pbt
