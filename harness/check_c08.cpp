// C08: state composition and vector form
#include "ekf/types.hpp"
#include "util.hpp"

using namespace util;
using pbt::Case;
using pbt::Gen;

static std::vector<unsigned int> Ids(Gen & g, int max)
{
  std::vector<unsigned int> ids;
  int n = g.Int(0, max);
  for (int i = 0; i < n; ++i) {
    unsigned int id = g.Coin(0.2) ? g.UInt(0, 4000000000u) : g.UInt(0, 12);
    if (std::find(ids.begin(), ids.end(), id) == ids.end()) {ids.push_back(id);}
  }
  return ids;
}

static void RandomValues(Gen & g, State & s, double qmax)
{
  double a = g.Log(1e-3, 1e4);
  s.body_state.pos_b_in_l = gen::Vec(g, a);
  s.body_state.vel_b_in_l = gen::Vec(g, a);
  s.body_state.acc_b_in_l = gen::Vec(g, a);
  s.body_state.ang_b_to_l = gen::Quat(g, qmax);
  s.body_state.ang_vel_b_in_l = gen::Vec(g, a);
  s.body_state.ang_acc_b_in_l = gen::Vec(g, a);
  for (auto & i : s.imu_states) {
    i.second.pos_i_in_b = gen::Vec(g, a);
    i.second.ang_i_to_b = gen::Quat(g, qmax);
    i.second.acc_bias = gen::Vec(g, a);
    i.second.omg_bias = gen::Vec(g, a);
  }
  for (auto & i : s.gps_states) {i.second.pos_a_in_b = gen::Vec(g, a);}
  for (auto & i : s.cam_states) {
    i.second.pos_c_in_b = gen::Vec(g, a);
    i.second.ang_c_to_b = gen::Quat(g, qmax);
  }
  for (auto & i : s.fid_states) {
    i.second.pos_f_in_l = gen::Vec(g, a);
    i.second.ang_f_to_l = gen::Quat(g, qmax);
  }
  for (auto & v : s.aug_states) {
    for (auto & i : v.second) {
      i.pos_b_in_l = gen::Vec(g, a);
      i.ang_b_to_l = gen::Quat(g, qmax);
    }
  }
}

static State RandomState(Gen & g, Case & c, double qmax)
{
  State s;
  for (auto id : Ids(g, 4)) {
    s.imu_states[id].SetIsExtrinsic(g.Coin());
    s.imu_states[id].SetIsIntrinsic(g.Coin());
    if (!s.imu_states[id].GetIsExtrinsic() && s.imu_states[id].GetIsIntrinsic()) {c.Label("imu_intrinsic_only");}
  }
  for (auto id : Ids(g, 4)) {s.gps_states[id].SetIsExtrinsic(g.Coin());}
  for (auto id : Ids(g, 4)) {s.cam_states[id].SetIsExtrinsic(g.Coin());}
  for (auto id : Ids(g, 4)) {
    s.fid_states[id].SetIsExtrinsic(g.Coin());
    s.fid_states[id].id = id;
  }
  for (auto id : Ids(g, 3)) {s.aug_states[id] = std::vector<AugState>(g.Int(0, 5));}
  RandomValues(g, s, qmax);
  return s;
}

// The documented layout: body, IMUs, GPS, cameras, fiducials, clones, each by ascending ID
struct Block
{
  int kind;   // 0 pos/vec3, 1 rotation
  Eigen::Vector3d * v;
  Eigen::Quaterniond * q;
  std::string name;
};
static std::vector<Block> Layout(State & s)
{
  std::vector<Block> b;
  auto vec = [&](Eigen::Vector3d & v, const std::string & n) {b.push_back(Block{0, &v, nullptr, n});};
  auto rot = [&](Eigen::Quaterniond & q, const std::string & n) {b.push_back(Block{1, nullptr, &q, n});};
  vec(s.body_state.pos_b_in_l, "body position");
  vec(s.body_state.vel_b_in_l, "body velocity");
  vec(s.body_state.acc_b_in_l, "body acceleration");
  rot(s.body_state.ang_b_to_l, "body orientation");
  vec(s.body_state.ang_vel_b_in_l, "body angular velocity");
  vec(s.body_state.ang_acc_b_in_l, "body angular acceleration");
  for (auto & i : s.imu_states) {
    std::string n = "IMU " + std::to_string(i.first);
    if (i.second.GetIsExtrinsic()) {vec(i.second.pos_i_in_b, n + " position"); rot(i.second.ang_i_to_b, n + " orientation");}
    if (i.second.GetIsIntrinsic()) {vec(i.second.acc_bias, n + " acc bias"); vec(i.second.omg_bias, n + " gyro bias");}
  }
  for (auto & i : s.gps_states) {
    if (i.second.GetIsExtrinsic()) {vec(i.second.pos_a_in_b, "GPS " + std::to_string(i.first));}
  }
  for (auto & i : s.cam_states) {
    std::string n = "camera " + std::to_string(i.first);
    if (i.second.GetIsExtrinsic()) {vec(i.second.pos_c_in_b, n + " position"); rot(i.second.ang_c_to_b, n + " orientation");}
  }
  for (auto & i : s.fid_states) {
    std::string n = "fiducial " + std::to_string(i.first);
    if (i.second.GetIsExtrinsic()) {vec(i.second.pos_f_in_l, n + " position"); rot(i.second.ang_f_to_l, n + " orientation");}
  }
  for (auto & v : s.aug_states) {
    for (size_t k = 0; k < v.second.size(); ++k) {
      std::string n = "clone " + std::to_string(v.first) + "/" + std::to_string(k);
      vec(v.second[k].pos_b_in_l, n + " position");
      rot(v.second[k].ang_b_to_l, n + " orientation");
    }
  }
  return b;
}
// Everything that must not move when a correction is applied
static Eigen::VectorXd Frozen(const State & s)
{
  std::vector<double> v;
  auto vec = [&](const Eigen::Vector3d & x) {for (int i = 0; i < 3; ++i) {v.push_back(x(i));}};
  auto rot = [&](const Eigen::Quaterniond & x) {
      ref::M3 r = ref::Rot(x);
      for (int i = 0; i < 9; ++i) {v.push_back(static_cast<double>(r(i)));}
    };
  for (auto & i : s.imu_states) {
    if (!i.second.GetIsExtrinsic()) {vec(i.second.pos_i_in_b); rot(i.second.ang_i_to_b);}
    if (!i.second.GetIsIntrinsic()) {vec(i.second.acc_bias); vec(i.second.omg_bias);}
  }
  for (auto & i : s.gps_states) {if (!i.second.GetIsExtrinsic()) {vec(i.second.pos_a_in_b);}}
  for (auto & i : s.cam_states) {if (!i.second.GetIsExtrinsic()) {vec(i.second.pos_c_in_b); rot(i.second.ang_c_to_b);}}
  for (auto & i : s.fid_states) {if (!i.second.GetIsExtrinsic()) {vec(i.second.pos_f_in_l); rot(i.second.ang_f_to_l);}}
  return Eigen::Map<Eigen::VectorXd>(v.data(), v.size());
}

static Eigen::VectorXd Delta(Gen & g, size_t blocks, const std::vector<Block> & lay, double rot_max)
{
  Eigen::VectorXd d(3 * blocks);
  double a = g.Log(1e-6, 1e3);
  for (size_t k = 0; k < blocks; ++k) {
    d.segment<3>(3 * k) = lay[k].kind ? gen::RotVec(g, rot_max) : gen::Vec(g, a);
  }
  return d;
}

static void Describe(Case & c, const State & s)
{
  c.note << "imu:";
  for (auto & i : s.imu_states) {c.note << " " << i.first << (i.second.GetIsExtrinsic() ? "e" : "") << (i.second.GetIsIntrinsic() ? "i" : "");}
  c.note << " gps:";
  for (auto & i : s.gps_states) {c.note << " " << i.first << (i.second.GetIsExtrinsic() ? "e" : "");}
  c.note << " cam:";
  for (auto & i : s.cam_states) {c.note << " " << i.first << (i.second.GetIsExtrinsic() ? "e" : "");}
  c.note << " fid:";
  for (auto & i : s.fid_states) {c.note << " " << i.first << (i.second.GetIsExtrinsic() ? "e" : "");}
  c.note << " clones:";
  for (auto & i : s.aug_states) {c.note << " " << i.first << "x" << i.second.size();}
  c.note << " body pos " << S(s.body_state.pos_b_in_l);
}

static double Tol(const Eigen::Vector3d & a, const Eigen::Vector3d & b) {return 1e-12 * (1 + a.norm() + b.norm());}

static void PlusVector(Gen & g, Case & c)
{
  State s = RandomState(g, c, 3.1415926);
  Describe(c, s);
  State before = s;
  auto lay = Layout(s);
  auto lay0 = Layout(before);
  Eigen::VectorXd d = Delta(g, lay.size(), lay, 6.5);
  Eigen::VectorXd frozen = Frozen(s);
  c.note << " delta " << S(d);
  if (lay.size() > 6) {c.NonTrivial();}
  s += d;
  for (size_t k = 0; k < lay.size(); ++k) {
    Eigen::Vector3d dk = d.segment<3>(3 * k);
    if (lay[k].kind == 0) {
      CheckNear(c, *lay[k].v, *lay0[k].v + dk, Tol(*lay0[k].v, dk), lay[k].name);
    } else {
      CheckRot(c, *lay[k].q, ref::M3(ref::Rot(*lay0[k].q) * ref::Exp(dk)), 1e-8, lay[k].name);
    }
  }
  CheckNear(c, Frozen(s), frozen, 0.0, "quantity that is not estimated");
}

static void RoundTrip(Gen & g, Case & c)
{
  State s = RandomState(g, c, 3.14);
  Describe(c, s);
  auto lay = Layout(s);
  if (lay.size() > 6) {c.NonTrivial();}
  c.Check(s.GetStateSize() == 3 * lay.size(), "state size is " + std::to_string(s.GetStateSize()) + ", expected " + std::to_string(3 * lay.size()));
  Eigen::VectorXd v = s.ToVector();
  c.Check(v.size() == static_cast<int>(3 * lay.size()), "vector form has size " + std::to_string(v.size()) + ", expected " + std::to_string(3 * lay.size()));
  for (size_t k = 0; k < lay.size(); ++k) {
    if (lay[k].kind == 0) {
      CheckNear(c, v.segment<3>(3 * k), *lay[k].v, 1e-12 * (1 + lay[k].v->norm()), "vector form of " + lay[k].name);
    } else {
      CheckRot(c, *lay[k].q, ref::Exp(Eigen::Vector3d(v.segment<3>(3 * k))), 1e-7, "vector form of " + lay[k].name);
    }
  }
  // Writing a vector and reading it back, into a state with other values
  State t = s;
  RandomValues(g, t, 3.14);
  Eigen::VectorXd frozen = Frozen(t);
  t.SetState(v);
  CheckNear(c, Frozen(t), frozen, 0.0, "quantity that is not estimated");
  auto layt = Layout(t);
  for (size_t k = 0; k < lay.size(); ++k) {
    if (lay[k].kind == 0) {
      CheckNear(c, *layt[k].v, *lay[k].v, 1e-12 * (1 + lay[k].v->norm()), "set state of " + lay[k].name);
    } else {
      CheckRot(c, *layt[k].q, *lay[k].q, 1e-7, "set state of " + lay[k].name);
    }
  }
  Eigen::VectorXd v2 = t.ToVector();
  CheckNear(c, v2, v, 1e-6 * (1 + v.cwiseAbs().maxCoeff()), "vector written and read back");
}

static void PlusState(Gen & g, Case & c)
{
  State s = RandomState(g, c, 3.14);
  Describe(c, s);
  State r = s;
  RandomValues(g, r, 3.14);
  State before = s;
  s += r;
  // every quantity of every sensor is composed, estimated or not: estimate all for the layout
  auto all = [](State & x) {
      for (auto & i : x.imu_states) {i.second.SetIsExtrinsic(true); i.second.SetIsIntrinsic(true);}
      for (auto & i : x.gps_states) {i.second.SetIsExtrinsic(true);}
      for (auto & i : x.cam_states) {i.second.SetIsExtrinsic(true);}
      for (auto & i : x.fid_states) {i.second.SetIsExtrinsic(true);}
    };
  all(s); all(r); all(before);
  auto ls = Layout(s), lr = Layout(r), lb = Layout(before);
  c.Check(ls.size() == lb.size(), "composition changed the structure of the state");
  if (ls.size() > 6) {c.NonTrivial();}
  for (size_t k = 0; k < ls.size(); ++k) {
    if (ls[k].kind == 0) {
      CheckNear(c, *ls[k].v, *lb[k].v + *lr[k].v, Tol(*lb[k].v, *lr[k].v), ls[k].name);
    } else {
      CheckRot(c, *ls[k].q, ref::M3(ref::Rot(*lr[k].q) * ref::Rot(*lb[k].q)), 1e-8, ls[k].name);
    }
  }
}

// The operators on parts of the state agree with the operator on the whole state
static void Parts(Gen & g, Case & c)
{
  State s = RandomState(g, c, 3.1);
  Describe(c, s);
  auto lay = Layout(s);
  Eigen::VectorXd d = Delta(g, lay.size(), lay, 3.0);
  State whole = s;
  whole += d;
  if (lay.size() > 6) {c.NonTrivial();}
  State part = s;
  int at = 18;
  int n = 0;
  Eigen::VectorXd seg = d.segment(0, 18);
  part.body_state += seg;
  State single = s;
  for (auto & i : single.imu_states) {
    Eigen::VectorXd one = d.segment(at + n, i.second.size);
    i.second += one;
    n += i.second.size;
  }
  seg = d.segment(at, n);
  part.imu_states += seg;
  for (auto & i : part.imu_states) {
    c.Check(i.second.pos_i_in_b == single.imu_states[i.first].pos_i_in_b && i.second.acc_bias == single.imu_states[i.first].acc_bias &&
      i.second.omg_bias == single.imu_states[i.first].omg_bias, "IMU alone and IMU in a set disagree");
    CheckRot(c, i.second.ang_i_to_b, single.imu_states[i.first].ang_i_to_b, 1e-9, "IMU alone and IMU in a set");
  }
  at += n;
  for (auto & i : part.gps_states) {
    if (i.second.GetIsExtrinsic()) {i.second.pos_a_in_b += d.segment<3>(at); at += 3;}
  }
  n = 0;
  for (auto & i : part.cam_states) {n += i.second.GetIsExtrinsic() ? 6 : 0;}
  seg = d.segment(at, n);
  part.cam_states += seg;
  at += n;
  for (auto & i : part.fid_states) {
    if (i.second.GetIsExtrinsic()) {
      i.second.pos_f_in_l = whole.fid_states[i.first].pos_f_in_l;
      i.second.ang_f_to_l = whole.fid_states[i.first].ang_f_to_l;
      at += 6;
    }
  }
  for (auto & v : part.aug_states) {
    n = 6 * static_cast<int>(v.second.size());
    seg = d.segment(at, n);
    v.second += seg;
    at += n;
  }
  auto lp = Layout(part), lw = Layout(whole);
  for (size_t k = 0; k < lp.size(); ++k) {
    if (lp[k].kind == 0) {CheckNear(c, *lp[k].v, *lw[k].v, 1e-12 * (1 + lw[k].v->norm()), "part operator, " + lp[k].name);} else {
      CheckRot(c, *lp[k].q, *lw[k].q, 1e-8, "part operator, " + lp[k].name);
    }
  }
  CheckNear(c, Frozen(part), Frozen(whole), 0.0, "part operator, quantity that is not estimated");
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C08";
  p.rule = "random filter states: up to 4 IMUs, GPS, cameras, fiducials with arbitrary IDs and calibration flags, up to 3x5 clones, "
    "values over seven decades, rotations over the whole group; non-trivial: at least one estimated quantity beyond the body";
  p.Add("plus_vector", 800000, 20000000, PlusVector);
  p.Add("round_trip", 800000, 20000000, RoundTrip);
  p.Add("plus_state", 400000, 10000000, PlusState);
  p.Add("parts", 400000, 10000000, Parts);
  return pbt::Main(argc, argv, {p});
}
