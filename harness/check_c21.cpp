// C21: data logs
#include "updates.hpp"
#include "infrastructure/data_logger.hpp"

#include "files.hpp"

using namespace updates;

// A logger writes its header once, then the messages the rate admits
static void Limiter(Gen & g, Case & c)
{
  Scratch s;
  double rate = g.Coin(0.2) ? 0.0 : g.Log(0.1, 1000.0);
  bool three = g.Coin(0.3);
  DataLogger log = three ? DataLogger(s.dir, "a.csv", rate) : DataLogger(s.dir, "a.csv");
  if (!three) {log.SetLogRate(rate);}
  if (g.Coin(0.3)) {log.SetOutputFileName("b.csv"); log.SetOutputFileName("a.csv");}
  log.DefineHeader("time,text");
  bool on = g.Coin(0.8);
  if (on) {log.EnableLogging();}
  std::vector<std::string> want;
  bool have = false;
  double t0 = 0;
  size_t count = 0;
  double t = g.Coin(0.5) ? 0.0 : g.Real(-10.0, 1e5);
  int n = g.Int(0, 60);
  double step = (rate > 0 ? 1 / rate : 1.0) * g.Log(0.01, 3.0);
  bool near = false;
  for (int i = 0; i < n; ++i) {
    if (!on && g.Coin(0.1)) {on = true; log.EnableLogging();}
    std::string m = std::to_string(i) + ",m";
    if (g.Coin(0.05)) {
      log.Log(m);
      if (on) {want.push_back(m); ++count;}
      continue;
    }
    log.RateLimitedLog(m, t);
    if (on) {
      if (!have) {
        have = true;
        t0 = t;
        want.push_back(m);
        ++count;
      } else {
        double allowed = rate * (t - t0);
        if (rate != 0 && std::abs(allowed - count) < 1e-6 * (1 + std::abs(allowed))) {near = true; break;}
        if (rate == 0 || count < allowed) {want.push_back(m); ++count;}
      }
    }
    t += g.Coin(0.1) ? 0.0 : (g.Coin(0.03) ? -step : step * g.Real(0.2, 2.0));
  }
  if (near) {c.Skip();}
  c.note << "rate " << rate << (three ? " given at construction" : "") << ", " << n << " messages from " << t0 << " every " << step;
  std::vector<std::string> got = Lines(s.dir + "a.csv");
  if (want.empty()) {
    c.Check(got.empty(), "a log without messages is not empty");
    return;
  }
  want.insert(want.begin(), "time,text");
  c.Check(got.size() == want.size(), "log has " + std::to_string(got.size()) + " lines, expected " + std::to_string(want.size()));
  for (size_t i = 0; i < want.size(); ++i) {c.Check(got[i] == want[i], "line " + std::to_string(i) + " is \"" + got[i] + "\", expected \"" + want[i] + "\"");}
  if (want.size() > 3 && want.size() < static_cast<size_t>(n)) {c.NonTrivial();}
  if (t0 == 0) {c.Label("from_zero");}
}

struct Table
{
  std::string name;
  size_t seen{0};
  bool first{true};
  double t0{0};
  std::map<std::string, double> last;
};

// Reads a table and checks its shape; true when it has grown by `rows` rows
static size_t Read(Case & c, const std::string & dir, Table & t)
{
  std::vector<std::string> l = Lines(dir + t.name);
  if (l.empty()) {return 0;}
  std::vector<std::string> head = Split(l[0]);
  std::set<std::string> names(head.begin(), head.end());
  c.Check(names.size() == head.size() && !names.count(""), t.name + ": the header names a column twice");
  size_t rows = l.size() - 1;
  for (size_t i = t.seen; i < rows; ++i) {
    std::vector<std::string> cell = Split(l[i + 1]);
    c.Check(cell.size() == head.size(), t.name + ": row " + std::to_string(i + 1) + " has " + std::to_string(cell.size()) + " cells under " + std::to_string(head.size()) + " columns");
    t.last.clear();
    for (size_t k = 0; k < cell.size(); ++k) {
      char * end;
      double v = std::strtod(cell[k].c_str(), &end);
      c.Check(!cell[k].empty() && *end == 0, t.name + ": column " + head[k] + " holds \"" + cell[k] + "\"");
      t.last[head[k]] = v;
    }
  }
  size_t grown = rows - t.seen;
  t.seen = rows;
  return grown;
}

static void Cell(Case & c, const Table & t, const std::string & col, double want)
{
  auto it = t.last.find(col);
  c.Check(it != t.last.end(), t.name + " has no column " + col);
  // six digits are written
  double tol = 1e-5 * std::abs(want) + 1e-12;
  c.Check(std::abs(it->second - want) <= tol, t.name + ": " + col + " is " + std::to_string(it->second) + ", expected " + std::to_string(want));
}
template<class V> static void Cells(Case & c, const Table & t, const std::string & col, const V & v)
{
  for (int i = 0; i < static_cast<int>(v.size()); ++i) {Cell(c, t, col + "_" + std::to_string(i), v(i));}
}
static void Rotation(Case & c, const Table & t, const std::string & col, const Eigen::Quaterniond & q)
{
  Cells(c, t, col, Eigen::Vector4d(q.w(), q.x(), q.y(), q.z()));
}

static void Tables(Gen & g, Case & c)
{
  Scratch s;
  bool root = g.Coin(0.5);
  Limits lim;
  lim.max_sensors = 4;
  Sensors sens = RandomSensors(g, c, lim);
  World w(sens, root, sens.regs.size(), s.dir, 1e9);
  if (g.Coin(0.7)) {w.ekf->InitializeGravity();}
  if (g.Coin(0.8)) {SetCov(*w.ekf, gen::Spd(g, static_cast<int>(w.ekf->GetStateSize()), 1e-3, 1.0));}
  c.note << (root ? "root" : "standard");
  std::map<std::string, Table> tables;
  auto table = [&](const std::string & n) -> Table & {tables[n].name = n; return tables[n];};
  std::map<unsigned int, unsigned int> board;  // one board per camera
  unsigned int frame = 1;
  size_t reg = sens.regs.size(), rows = 0;
  int n = g.Int(1, 12);
  for (int i = 0; i < n; ++i) {
    Op op = NextOp(g, c, w, frame, sens.regs.size(), reg);
    if (op.kind == Op::FIDUCIAL) {
      if (!board.count(op.cam)) {board[op.cam] = op.id;}
      if (board[op.cam] != op.id) {continue;}
    }
    double before = w.ekf->GetCurrentTime();
    w.Apply(op);
    EKF & e = *w.ekf;
    const State & st = e.m_state;
    Eigen::VectorXd var = Full(e.m_cov, root).diagonal();
    double t = op.time;  // times are local once the filter has been initialised
    Table & body = table("body_state.csv");
    size_t grown = Read(c, s.dir, body);
    if (grown && body.first) {
      body.first = false;
      body.t0 = e.GetCurrentTime();
    }
    // at the time of the first row only that one is written
    if (grown && (op.kind == Op::PREDICT || (op.kind == Op::IMU && e.GetCurrentTime() > body.t0))) {
      Cell(c, body, "time", e.GetCurrentTime());
      Cells(c, body, "body_pos", st.body_state.pos_b_in_l);
      Cells(c, body, "body_vel", st.body_state.vel_b_in_l);
      Cells(c, body, "body_acc", st.body_state.acc_b_in_l);
      Rotation(c, body, "body_ang_pos", st.body_state.ang_b_to_l);
      Cells(c, body, "body_ang_vel", st.body_state.ang_vel_b_in_l);
      Cells(c, body, "body_ang_acc", st.body_state.ang_acc_b_in_l);
      Cells(c, body, "body_cov", var.head<18>());
      Cell(c, body, "state_size", e.GetStateSize());
      ++rows;
    }
    if (op.kind == Op::PREDICT && t > before && body.seen > grown) {c.Check(grown == 1, "a prediction is not logged");}
    Table & aug = table("aug_state.csv");
    if (Read(c, s.dir, aug) && (op.kind == Op::PREDICT || op.kind == Op::FRAME)) {
      // the body has not changed since
      Cells(c, aug, "aug_pos", st.body_state.pos_b_in_l);
      Rotation(c, aug, "aug_ang", st.body_state.ang_b_to_l);
      Cell(c, aug, "time", e.GetCurrentTime());
      ++rows;
    }
    // a sensor's row is written at every later time
    auto expect = [&](Table & x) {
        size_t k = Read(c, s.dir, x);
        bool must = x.first || t > x.t0;
        c.Check(k == (must ? 1 : 0), x.name + " got " + std::to_string(k) + " rows from one measurement");
        if (x.first) {x.first = false; x.t0 = t;}
        if (k) {Cell(c, x, "time", t); ++rows;}
        return k > 0;
      };
    switch (op.kind) {
      case Op::IMU: {
          Table & x = table("imu_" + std::to_string(op.id) + ".csv");
          if (!expect(x)) {break;}
          const ImuState & m = st.imu_states.at(op.id);
          Cells(c, x, "imu_pos", m.pos_i_in_b);
          Rotation(c, x, "imu_ang_pos", m.ang_i_to_b);
          Cells(c, x, "imu_acc_bias", m.acc_bias);
          Cells(c, x, "imu_gyr_bias", m.omg_bias);
          if (m.GetIsExtrinsic()) {Cells(c, x, "imu_ext_cov", var.segment<6>(m.index_extrinsic));}
          if (m.GetIsIntrinsic()) {Cells(c, x, "imu_int_cov", var.segment<6>(m.index_intrinsic));}
          Cells(c, x, "acc", op.a);
          Cells(c, x, "omg", op.b);
          c.Label(x.last["stationary"] == 1 ? "imu_stationary" : "imu_moving");
          break;
        }
      case Op::GPS: {
          Table & x = table("gps_" + std::to_string(op.id) + ".csv");
          if (!expect(x)) {break;}
          const GpsState & m = st.gps_states.at(op.id);
          Cell(c, x, "lat", op.a(0));
          Cell(c, x, "lon", op.a(1));
          Cell(c, x, "alt", op.a(2));
          if (m.GetIsExtrinsic()) {
            Cells(c, x, "ant_pos", m.pos_a_in_b);
            Cells(c, x, "gps_cov", var.segment<3>(m.index));
          }
          break;
        }
      case Op::FIDUCIAL: {
          Table & x = table("fiducial_" + std::to_string(op.cam) + ".csv");
          if (!expect(x)) {break;}
          const CamState & m = st.cam_states.at(op.cam);
          const FidState & f = st.fid_states.at(op.id);
          Cell(c, x, "board", op.id);
          Cells(c, x, "board_meas_pos", op.a);
          Rotation(c, x, "board_meas_ang", op.q);
          Cells(c, x, "cam_pos", m.pos_c_in_b);
          Rotation(c, x, "cam_ang_pos", m.ang_c_to_b);
          if (f.GetIsExtrinsic()) {
            Cells(c, x, "fid_pos", f.pos_f_in_l);
            Rotation(c, x, "fid_ang", f.ang_f_to_l);
            Cells(c, x, "fid_cov", var.segment<6>(f.index));
          }
          if (m.GetIsExtrinsic()) {Cells(c, x, "cam_cov", var.segment<6>(m.index));}
          break;
        }
      case Op::TRACKS: {
          Table & tri = table("triangulation_" + std::to_string(op.id) + ".csv");
          if (Read(c, s.dir, tri)) {Cell(c, tri, "time", t); ++rows;}
          Table & x = table("msckf_" + std::to_string(op.id) + ".csv");
          if (!Read(c, s.dir, x)) {break;}
          ++rows;
          const CamState & m = st.cam_states.at(op.id);
          Cell(c, x, "time", t);
          Cell(c, x, "FeatureTracks", op.tracks.size());
          Cells(c, x, "cam_pos", m.pos_c_in_b);
          Rotation(c, x, "cam_ang_pos", m.ang_c_to_b);
          if (m.GetIsExtrinsic()) {Cells(c, x, "cam_cov", var.segment<6>(m.index));}
          break;
        }
      default: break;
    }
  }
  if (rows > 3) {c.NonTrivial();}
}

// No table gets more rows than its rate admits
static void Rates(Gen & g, Case & c)
{
  Scratch s;
  bool root = g.Coin(0.3);
  Limits lim;
  lim.max_sensors = 5;
  Sensors sens = RandomSensors(g, c, lim);
  double rate = g.Log(0.3, 30.0);
  World w(sens, root, sens.regs.size(), s.dir, rate);
  if (g.Coin(0.9)) {w.ekf->InitializeGravity();}
  c.note << "rate " << rate;
  std::map<unsigned int, unsigned int> board;
  unsigned int frame = 1;
  size_t reg = sens.regs.size();
  int n = g.Int(5, 25);
  std::map<std::string, std::vector<double>> times;
  for (int i = 0; i < n; ++i) {
    Op op = NextOp(g, c, w, frame, sens.regs.size(), reg);
    if (op.kind == Op::FIDUCIAL) {
      if (!board.count(op.cam)) {board[op.cam] = op.id;}
      if (board[op.cam] != op.id) {continue;}
    }
    w.Apply(op);
    std::string id = std::to_string(op.kind == Op::FIDUCIAL ? op.cam : op.id) + ".csv";
    if (op.kind == Op::IMU) {times["imu_" + id].push_back(op.time);}
    if (op.kind == Op::GPS) {times["gps_" + id].push_back(op.time);}
    if (op.kind == Op::FIDUCIAL) {times["fiducial_" + id].push_back(op.time);}
    if (op.kind == Op::TRACKS) {times["msckf_" + id].push_back(op.time);}
    times["body_state.csv"].push_back(w.ekf->GetCurrentTime());
  }
  size_t held = 0;
  for (auto & t : times) {
    size_t lines = Lines(s.dir + t.first).size();
    size_t rows = lines ? lines - 1 : 0;
    double lo = *std::min_element(t.second.begin(), t.second.end()), hi = *std::max_element(t.second.begin(), t.second.end());
    // the body may have been logged since the start
    if (t.first == "body_state.csv") {lo = std::min(lo, sens.time);}
    c.Check(rows <= 1 + rate * (hi - lo) + 1e-6, t.first + " has " + std::to_string(rows) + " rows in " + std::to_string(hi - lo) + " s at " + std::to_string(rate) + " Hz");
    if (t.second.size() > rows) {held += t.second.size() - rows;}
  }
  if (held > 2) {c.NonTrivial();}
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C21";
  p.rule = "limiter: loggers at any rate and up to 60 messages at times from zero, negative or large values, late and repeated; tables: up to 12 mixed operations on filters of up to 4 sensors logging every message; rates: up to 25 operations on up to 5 sensors logging at 0.3-30 Hz; "
    "non-trivial: some messages written and some held back; more than three rows written; more than two rows held back";
  p.assumptions.push_back("one board per camera, as a configuration gives; numbers are compared to the six digits written; messages within 1e-6 of the rate limit are not judged");
  p.Add("limiter", 30000, 150000, Limiter);
  p.Add("tables", 20000, 150000, Tables);
  p.Add("rates", 12000, 100000, Rates);
  return pbt::Main(argc, argv, {p});
}
