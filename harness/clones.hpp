// Reference model of the clones (augmented states) of a filter, and random histories of them
#ifndef CLONES_HPP_
#define CLONES_HPP_

#include "model.hpp"

namespace clones
{
using namespace model;

struct Clone
{
  unsigned int frame;
  double time;
  Eigen::Vector3d pos;
  Eigen::Quaterniond ang;
};

class World
{
public:
  World(Gen & g, Case & c)
  {
    root = g.Coin(0.4);
    params = RandomParams(g, root);
    type = g.Pick(std::vector<AugmentationType>{AugmentationType::ALL, AugmentationType::PRIMARY, AugmentationType::TIME, AugmentationType::ERROR, AugmentationType::NONE});
    static const char * names[] = {"NONE", "ALL", "PRIMARY", "TIME", "ERROR"};
    c.note << (root ? "root " : "standard ") << names[static_cast<int>(type)] << " ";
    c.Label(names[static_cast<int>(type)]);
    c.Label(root ? "root" : "standard");
    params.augmenting_type = type;
    params.augmenting_delta_time = g.Log(0.05, 1.0);
    params.augmenting_pos_error = g.Log(0.01, 1.0);
    params.augmenting_ang_error = g.Log(0.01, 1.0);
    length = g.UInt(1, 6);
    ekf = std::make_shared<EKF>(params);
    BodyState body;
    RandomBody(g, body, 0.2);
    time = g.Coin(0.4) ? 0.0 : g.Real(-10.0, 1000.0);
    ekf->Initialize(time, body);
    bool before = g.Coin();
    if (before) {ekf->SetMaxTrackLength(length);}
    int others = g.Int(0, 2);
    for (int i = 0; i < others; ++i) {
      if (g.Coin()) {ekf->RegisterIMU(g.UInt(1, 5), RandomImu(g), RandomCov(g, 12, true));} else {ekf->RegisterFiducial(RandomFid(g), RandomCov(g, 6, true));}
    }
    int n = g.Int(1, 3);
    for (int i = 0; i < n; ++i) {
      unsigned int id = g.UInt(1, 20);
      if (std::find(cams.begin(), cams.end(), id) != cams.end()) {continue;}
      CamState s = RandomCam(g);
      period = std::max(period, 1 / s.rate);
      min_period = std::min(min_period, 1 / s.rate);
      ekf->RegisterCamera(id, s, RandomCov(g, 6, true));
      cams.push_back(id);
      c.note << "camera " << id << "@" << s.rate << " ";
    }
    if (!before) {ekf->SetMaxTrackLength(length);}
    c.note << "length " << length << " ";
    gravity = g.Coin(0.8);
    if (gravity) {ekf->InitializeGravity();}
    if (g.Coin(0.7)) {zero_acc = false; ekf->SetZeroAcceleration(false);}
  }

  bool Interpolated(unsigned int cam) const
  {
    return !(type == AugmentationType::ALL || (type == AugmentationType::PRIMARY && cam == cams[0]));
  }
  unsigned int Key(unsigned int cam) const
  {
    if (type == AugmentationType::ALL) {return cam;}
    return type == AugmentationType::PRIMARY ? cams[0] : 0;
  }
  const std::vector<AugState> & Actual(unsigned int key) const
  {
    static std::vector<AugState> none;
    auto it = ekf->m_state.aug_states.find(key);
    return it == ekf->m_state.aug_states.end() ? none : it->second;
  }

  // One random operation, checked against the model
  void Step(Gen & g, Case & c, int k)
  {
    std::string what = "step " + std::to_string(k);
    int op = g.Int(0, 9);
    if (op <= 4) {
      double dt = g.Coin(0.1) ? 0.0 : (g.Coin(0.1) ? -g.Log(1e-3, 1.0) : g.Log(1e-3, 1.5));
      c.note << "; predict " << dt;
      Predict(g, c, dt, what);
    } else if (op <= 7) {
      unsigned int cam = g.Pick(cams);
      c.note << "; frame " << cam << "/" << frame;
      Frame(g, c, cam, what);
    } else if (op == 8) {
      // as a measurement update would: everything moves, everything becomes correlated
      Eigen::VectorXd d = 0.3 * gen::VecN(g, ekf->GetStateSize(), 1.0);
      ekf->m_state += d;
      SetCov(*ekf, gen::Spd(g, ekf->GetStateSize(), 1e-4, 1e1));
      for (auto & m : lists) {
        for (size_t i = 0; i < m.second.size(); ++i) {
          m.second[i].pos = Actual(m.first)[i].pos_b_in_l;
          m.second[i].ang = Actual(m.first)[i].ang_b_to_l;
        }
      }
      c.note << "; update";
    } else {
      ekf->m_state.body_state.acc_b_in_l = gen::Vec(g, 5.0) + Eigen::Vector3d(0, 0, 9.80665);
      ekf->m_state.body_state.ang_vel_b_in_l = gen::Vec(g, 1.0);
      c.note << "; rates";
    }
  }

  // The filter holds exactly these clones
  void CheckLists(Case & c, const std::string & what)
  {
    CheckLayout(c, *ekf, true);
    for (auto & a : ekf->m_state.aug_states) {
      c.Check(a.second.empty() || lists.count(a.first), what + ": clones in an unexpected set " + std::to_string(a.first));
    }
    for (auto & m : lists) {
      const std::vector<AugState> & got = Actual(m.first);
      c.Check(got.size() == m.second.size(), what + ": set " + std::to_string(m.first) + " has " + std::to_string(got.size()) + " clones, expected " + std::to_string(m.second.size()));
      for (size_t i = 0; i < got.size(); ++i) {
        std::string n = what + ": clone " + std::to_string(i) + " of set " + std::to_string(m.first);
        c.Check(got[i].time == m.second[i].time, n + " has time " + S(got[i].time) + " instead of " + S(m.second[i].time));
        c.Check(got[i].frame_id == m.second[i].frame, n + " has frame " + std::to_string(got[i].frame_id) + " instead of " + std::to_string(m.second[i].frame));
        CheckNear(c, got[i].pos_b_in_l, m.second[i].pos, 1e-12 * (1 + m.second[i].pos.norm()), n + ": position");
        CheckRot(c, got[i].ang_b_to_l, m.second[i].ang, 1e-9, n + ": orientation");
      }
    }
  }

  bool root, gravity, zero_acc{true};
  AugmentationType type;
  EKF::Parameters params;
  std::shared_ptr<EKF> ekf;
  std::vector<unsigned int> cams;
  unsigned int length;
  double period{0.0}, min_period{1.0};
  double time;
  unsigned int frame{1};
  std::map<unsigned int, std::vector<Clone>> lists;
  int added{0}, dropped{0};

private:
  bool m_frame_seen{true};
  double m_last_added{0.0};

  Clone Now() const
  {
    return Clone{0, ekf->GetCurrentTime(), ekf->m_state.body_state.pos_b_in_l, ekf->m_state.body_state.ang_b_to_l};
  }

  // rows of the covariance before the operation that the rows after it must equal
  void CheckSelection(
    Case & c, const Eigen::MatrixXd & p, const std::vector<Block> & before, const std::map<unsigned int, std::vector<int>> & source, const std::string & what)
  {
    std::map<Label, Block> old;
    for (auto & b : before) {old[b.label] = b;}
    std::vector<int> src;
    for (auto & b : Blocks(*ekf)) {
      if (b.label.kind == AUG) {
        int s = source.at(b.label.id)[b.label.sub];
        if (s < 0) {
          for (int i = 0; i < 3; ++i) {src.push_back(i);}
          for (int i = 9; i < 12; ++i) {src.push_back(i);}
          continue;
        }
        const Block & o = old.at(Label{AUG, b.label.id, static_cast<unsigned int>(s)});
        for (unsigned int i = 0; i < o.size; ++i) {src.push_back(o.index + i);}
      } else {
        const Block & o = old.at(b.label);
        for (unsigned int i = 0; i < o.size; ++i) {src.push_back(o.index + i);}
      }
    }
    Eigen::MatrixXd want(src.size(), src.size());
    for (size_t i = 0; i < src.size(); ++i) {for (size_t j = 0; j < src.size(); ++j) {want(i, j) = p(src[i], src[j]);}}
    CheckCov(c, Full(ekf->m_cov, root), want, 1e-9, what);
  }

  std::map<unsigned int, std::vector<int>> Identity() const
  {
    std::map<unsigned int, std::vector<int>> s;
    for (auto & m : lists) {for (size_t i = 0; i < m.second.size(); ++i) {s[m.first].push_back(static_cast<int>(i));}}
    return s;
  }

  void Frame(Gen &, Case & c, unsigned int cam, const std::string & what)
  {
    Eigen::MatrixXd p = Full(ekf->m_cov, root);
    auto before = Blocks(*ekf);
    auto source = Identity();
    Values values(ekf->m_state);
    m_frame_seen = true;
    bool mine = type == AugmentationType::ALL || (type == AugmentationType::PRIMARY && cam == cams[0]);
    ekf->AugmentStateIfNeeded(cam, frame);
    if (mine) {
      Clone n = Now();
      n.frame = frame;
      lists[cam].push_back(n);
      source[cam].push_back(-1);
      ++added;
      if (lists[cam].size() > length) {
        lists[cam].erase(lists[cam].begin());
        source[cam].erase(source[cam].begin());
        ++dropped;
      }
      c.Check(lists[cam].size() <= length, "model");
    }
    ++frame;
    CheckLists(c, what);
    CheckSelection(c, p, before, source, what);
    Values after(ekf->m_state);
    for (auto & v : values.vec) {
      if (v.first.compare(0, 5, "clone") != 0) {CheckNear(c, after.vec[v.first], v.second, 0.0, what + ": " + v.first + " changed by a frame");}
    }
    CheckRot(c, after.rot["body orientation"], values.rot["body orientation"], 1e-9, what + ": orientation changed by a frame");
  }

  void Predict(Gen &, Case & c, double dt, const std::string & what)
  {
    double to = time + dt;
    dt = to - time;
    Eigen::MatrixXd p = Full(ekf->m_cov, root);
    auto before = Blocks(*ekf);
    auto source = Identity();
    Eigen::VectorXd q = Noise(*ekf, params.process_noise);
    ekf->PredictModel(to);
    if (dt < 0) {
      CheckLists(c, what);
      CheckSelection(c, p, before, source, what);
      return;
    }
    time = to;
    if (gravity) {
      int n = static_cast<int>(p.rows());
      Eigen::MatrixXd f = Eigen::MatrixXd::Identity(n, n);
      for (int i = 0; i < 3; ++i) {f(i, i + 3) = dt;}
      p = (f * (p + Eigen::MatrixXd((q * dt).asDiagonal())) * f.transpose()).eval();
    }
    if (type == AugmentationType::TIME || type == AugmentationType::ERROR) {
      std::vector<Clone> & list = lists[0];
      int need = Needed(list);  // 1 yes, 0 no, -1 either
      // drop those whose successor is older than the tracks can be
      std::vector<Clone> kept;
      std::vector<int> src;
      const std::vector<AugState> & got = Actual(0);
      double eps = 1e-9 * (1 + std::abs(time));
      for (size_t i = 0; i < list.size(); ++i) {
        bool keep = true;
        if (i + 1 < list.size()) {
          double age = time - list[i + 1].time;
          if (age > (length + 1) * period + eps) {
            keep = false;
          } else if (age > length * period - eps) {
            keep = false;
            for (auto & a : got) {if (a.time == list[i].time) {keep = true;}}
          }
        }
        if (keep) {kept.push_back(list[i]); src.push_back(static_cast<int>(i));} else {++dropped;}
      }
      list = kept;
      if (need < 0) {need = m_frame_seen && !got.empty() && got.back().time == time && (kept.empty() || kept.back().time != time);}
      if (need && m_frame_seen) {
        list.push_back(Now());
        src.push_back(-1);
        m_frame_seen = false;
        m_last_added = time;
        ++added;
      }
      source[0] = src;
    }
    CheckLists(c, what);
    CheckSelection(c, p, before, source, what);
  }

  int Needed(const std::vector<Clone> & list)
  {
    if (list.empty()) {return 1;}
    double eps = 1e-9 * (1 + std::abs(time));
    auto over = [&](double x, double limit) {return x > limit + eps ? 1 : (x < limit - eps ? 0 : -1);};
    if (type == AugmentationType::TIME) {return over(time - m_last_added, params.augmenting_delta_time);}
    double age = time - list.back().time;
    if (over(age, (length + 1) * period) == 1) {return 1;}
    const BodyState & b = ekf->m_state.body_state;
    Eigen::Vector3d dp = b.pos_b_in_l - age * b.vel_b_in_l - list.back().pos;
    ref::M3 r = ref::Rot(b.ang_b_to_l) * ref::Exp(Eigen::Vector3d(age * b.ang_vel_b_in_l)).transpose() * ref::Rot(list.back().ang).transpose();
    double da = ref::Ang(r, ref::M3(ref::M3::Identity()));
    int moved = std::max({over(dp.norm(), params.augmenting_pos_error), over(da, params.augmenting_ang_error)});
    if (over(dp.norm(), params.augmenting_pos_error) == -1 || std::abs(da - params.augmenting_ang_error) < 1e-6) {moved = moved == 1 ? 1 : -1;}
    int enough = over(age, min_period);
    if (enough == 1 && moved == 1) {return 1;}
    if (age > length * period - eps) {return -1;}
    if (enough == 0 || moved == 0) {return 0;}
    return -1;
  }
};
}  // namespace clones

#endif  // CLONES_HPP_
