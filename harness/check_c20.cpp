// C20: simulated camera, feature tracks and board detections
#include "truth.hpp"

#include "sensors/sim/sim_camera.hpp"
#include "sensors/sim/sim_camera_message.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "trackers/sim/sim_feature_tracker_message.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "trackers/sim/sim_fiducial_tracker_message.hpp"
#include "utility/sim/sim_rng.hpp"

using namespace truth;
using ref::real;

static Intrinsics AnyIntrinsics(Gen & g)
{
  Intrinsics k;
  k.f_x = g.Real(0.003, 0.02);
  k.f_y = g.Coin() ? k.f_x : k.f_x * g.Real(0.8, 1.2);
  k.width = g.Int(320, 1920);
  k.height = g.Int(240, 1080);
  k.pixel_size = g.Real(4e-6, 8e-6);
  k.k_1 = k.k_2 = k.p_1 = k.p_2 = 0;
  if (g.Coin(0.7)) {
    k.k_1 = g.Sym(0.3);
    k.k_2 = g.Sym(0.1);
    k.p_1 = g.Sym(0.02);
    k.p_2 = g.Sym(0.02);
  }
  return k;
}

static Vector3d AnyError(Gen & g, double lo, double hi)
{
  Vector3d v;
  for (int i = 0; i < 3; ++i) {v[i] = g.Coin(0.15) ? 0.0 : g.Log(lo, hi);}
  return v;
}

enum Sight {Seen, Unseen, Unclear};
struct Image
{
  Sight sight;
  double u, v, tol;
};
// Where the camera sees a point, from the true motion and mounting
struct Eye
{
  ref::M3 r;  // local to camera
  ref::V3 p;  // camera in local
  Intrinsics k;
  double base;
  Eye(Motion & m, unsigned int cam, double t)
  {
    ref::M3 rb = ref::Rot(m.engine->GetBodyAngularPosition(t));
    r = (rb * ref::Rot(m.engine->GetCameraAngularPosition(cam))).transpose();
    p = m.engine->GetBodyPosition(t).cast<real>() + rb * m.engine->GetCameraPosition(cam).cast<real>();
    k = m.engine->GetCameraIntrinsics(cam);
    // The rotation vector used for projecting is coarse within 1e-5 of no turn and half a turn
    double a = ref::Log(r).norm();
    base = 2e-3 + (std::min(a, M_PI - a) < 1e-4 ? 1e-4 * k.f_x / k.pixel_size : 0);
  }
  Image See(const cv::Point3d & f) const
  {
    ref::V3 x = r * (ref::V3(f.x, f.y, f.z) - p);
    Image i{Unclear, 0, 0, 0};
    double size = x.norm() + p.norm() + 1;
    if (std::abs(x[2]) < 1e-4 * size) {return i;}
    if (x[2] < 0) {i.sight = Unseen; return i;}
    real a = x[0] / x[2], b = x[1] / x[2], s = a * a + b * b, d = 1 + k.k_1 * s + k.k_2 * s * s;
    real da = a * d + 2 * k.p_1 * a * b + k.p_2 * (s + 2 * a * a), db = b * d + k.p_1 * (s + 2 * b * b) + 2 * k.p_2 * a * b;
    i.u = k.f_x / k.pixel_size * da + k.width / 2.0L;
    i.v = k.f_y / k.pixel_size * db + k.height / 2.0L;
    double far = std::sqrt(double(s));
    double slope = 1 + 3 * std::abs(k.k_1) * s + 5 * std::abs(k.k_2) * s * s + 6 * (std::abs(k.p_1) + std::abs(k.p_2)) * far;
    i.tol = base * slope * (1 + s) + 1e-9 * k.f_x / k.pixel_size * size / double(x[2]) * slope * (1 + far);
    double in = std::min(std::min(i.u, k.width - i.u), std::min(i.v, k.height - i.v));
    if (!(std::abs(in) > i.tol)) {return i;}
    i.sight = in > 0 ? Seen : Unseen;
    return i;
  }
};

static void CheckPoint(Case & c, const cv::KeyPoint & got, const Image & want, bool errors)
{
  double lim = want.tol + (errors ? 0.5 : 0);
  c.Check(Near(got.pt.x, want.u, lim) && Near(got.pt.y, want.v, lim),
    "image point " + S(got.pt.x) + " " + S(got.pt.y) + " want " + S(want.u) + " " + S(want.v));
  if (errors) {c.Check(got.pt.x == std::floor(got.pt.x) && got.pt.y == std::floor(got.pt.y), "image point in whole pixels");}
}

struct Scene
{
  Motion m;
  std::shared_ptr<EKF> ekf;
  std::shared_ptr<SimCamera> cam;
  unsigned int id;
  bool errors;
  SimCamera::Parameters p;
};
static Scene AnyScene(Gen & g, Case & c, double max, double rate, bool errors)
{
  Scene s;
  s.m = AnyMotion(g, max);
  SimRNG::SetSeed(g.UInt(1, 1000000));
  s.ekf = AnyEkf();
  s.errors = errors;
  auto & p = s.p;
  p.no_errors = !errors;
  p.time_error = g.Coin() ? 0.0 : g.Log(1e-4, 0.05) / rate;
  p.pos_error = AnyError(g, 1e-3, 0.5);
  p.ang_error = AnyError(g, 1e-3, 0.2);
  p.cam_params.logger = Silent();
  p.cam_params.ekf = s.ekf;
  p.cam_params.rate = rate;
  p.cam_params.pos_c_in_b = g.Coin(0.2) ? Vector3d::Zero() : Vec(g, 0.5);
  p.cam_params.ang_c_to_b = Quat(g);
  p.cam_params.intrinsics = AnyIntrinsics(g);
  p.cam_params.is_extrinsic = g.Coin(0.3);
  s.cam = std::make_shared<SimCamera>(p, s.m.engine);
  s.id = s.cam->GetId();
  Vector3d pos = s.m.engine->GetCameraPosition(s.id);
  ref::V3 d = ref::Log(ref::Rot(s.m.engine->GetCameraAngularPosition(s.id)) * ref::Rot(p.cam_params.ang_c_to_b).transpose());
  for (int i = 0; i < 3; ++i) {
    double e = pos[i] - p.cam_params.pos_c_in_b[i], a = d[i];
    if (!errors) {
      c.Check(e == 0 && std::abs(a) < 1e-9, "true camera pose as configured");
    } else {
      c.Check(std::abs(e) <= 7.5 * p.pos_error[i] + 1e-12 && (e != 0 || p.pos_error[i] == 0), "true camera position drawn around the configured one");
      c.Check(std::abs(a) <= 7.5 * p.ang_error[i] + 1e-7 + 0.6 * p.ang_error.norm() * p.ang_error.norm(), "true camera orientation drawn around the configured one");
    }
  }
  c.Check((p.ang_error.norm() == 0 || !errors) == (d.norm() < 1e-9), "true camera orientation error");
  c.note << (s.m.cyclic ? "cyclic" : "spline") << (errors ? " errors" : " exact") << " camera " << S(pos) << " ";
  return s;
}
static std::shared_ptr<SimFeatureTracker> AnyTracker(Gen & g, Scene & s, unsigned int & lo, unsigned int & hi, unsigned int & count)
{
  SimFeatureTracker::Parameters p;
  lo = g.UInt(1, 5);
  hi = g.UInt(2, 10);
  count = g.Coin(0.4) ? 0 : g.UInt(1, 40);
  p.feature_count = count;
  p.no_errors = !s.errors;
  p.tracker_params.camera_id = s.id;
  p.tracker_params.min_track_length = lo;
  p.tracker_params.max_track_length = hi;
  p.tracker_params.logger = Silent();
  p.tracker_params.ekf = s.ekf;
  p.tracker_params.px_error = g.Log(1e-3, 2);
  return std::make_shared<SimFeatureTracker>(p, s.m.engine);
}

static void KeyPoints(Gen & g, Case & c)
{
  double max = g.Real(1.0, 10.0);
  Scene s = AnyScene(g, c, max, 10, g.Coin());
  unsigned int lo, hi, count;
  auto tracker = AnyTracker(g, s, lo, hi, count);
  int n = g.Int(1, 4), seen = 0;
  for (int j = 0; j < n; ++j) {
    double t = g.Real(0.0, max);
    Eye eye(s.m, s.id, t);
    size_t before = s.m.engine->GetFeatures().size(), sure = 0, maybe = 0;
    for (auto & f : s.m.engine->GetFeatures()) {
      auto i = eye.See(f);
      sure += i.sight == Seen;
      maybe += i.sight != Unseen;
    }
    auto got = tracker->GetVisibleKeypoints(t);
    auto all = s.m.engine->GetFeatures();
    long added = long(all.size()) - long(before);
    c.Check(added >= std::max(0L, long(count) - long(maybe)) && added <= std::max(0L, long(count) - long(sure)),
      "new features " + S(double(added)) + " for " + S(double(count)) + " wanted and " + S(double(sure)) + " in view");
    std::map<int, cv::KeyPoint> by;
    for (auto & k : got) {
      c.Check(k.class_id >= 0 && size_t(k.class_id) < all.size(), "feature number of an image point");
      c.Check(by.emplace(k.class_id, k).second, "one image point for a feature");
    }
    for (size_t i = 0; i < all.size(); ++i) {
      auto want = eye.See(all[i]);
      if (want.sight == Unclear) {continue;}
      c.Check((want.sight == Seen) == (by.count(i) == 1),
        "feature " + S(double(i)) + (want.sight == Seen ? " is in view but not reported, at " : " is not in view but reported, at ") + S(want.u) + " " + S(want.v));
      if (want.sight == Seen) {
        CheckPoint(c, by[i], want, s.errors);
        ++seen;
      }
    }
  }
  c.note << n << " views, " << seen << " image points";
  if (seen > 3) {c.NonTrivial();}
}

struct Trail
{
  std::vector<unsigned int> frames;
  std::vector<double> times;
  std::vector<Image> images;
};
// The message of every frame holds the tracks that ended with it
static void Tracks(Gen & g, Case & c)
{
  int n = g.Int(2, 25);
  double dt = g.Log(0.01, 0.5), max = n * dt + 0.01;
  Scene s = AnyScene(g, c, max, 1 / dt, g.Coin());
  unsigned int lo, hi, count;
  auto tracker = AnyTracker(g, s, lo, hi, count);
  std::map<unsigned int, Trail> open;
  std::set<unsigned int> unclear;
  unsigned int frame = g.UInt(0, 20);
  int ended = 0, cut = 0;
  c.note << n << " frames each " << dt << " s, track lengths " << lo << " to " << hi << " ";
  for (int j = 0; j < n; ++j) {
    double t = j * dt;
    frame += g.Coin(0.2) ? g.UInt(1, 4) : 1;
    auto msg = tracker->GenerateMessage(t, frame);
    c.Check(msg->time == t && msg->tracker_id == tracker->GetID() && msg->sensor_id == s.id && msg->sensor_type == SensorType::Tracker, "origin of the message");
    Eye eye(s.m, s.id, t);
    auto all = s.m.engine->GetFeatures();
    for (size_t i = 0; i < all.size(); ++i) {
      auto im = eye.See(all[i]);
      if (im.sight == Unclear) {unclear.insert(i);}
      if (im.sight != Seen) {continue;}
      auto & o = open[i];
      o.frames.push_back(frame);
      o.times.push_back(t);
      o.images.push_back(im);
    }
    std::map<unsigned int, const FeatureTrack *> got;
    for (auto & x : msg->feature_tracks) {
      c.Check(!x.track.empty(), "empty track");
      c.Check(got.emplace(x.track[0].key_point.class_id, &x).second, "one track for a feature in a message");
    }
    for (auto it = open.begin(); it != open.end(); ) {
      auto & o = it->second;
      unsigned int i = it->first;
      bool full = o.frames.size() >= hi, gone = o.frames.back() != frame;
      if (unclear.count(i)) {
        got.erase(i);
      } else if (!(full || gone) || o.frames.size() < lo) {
        c.Check(!got.count(i), "track of feature " + S(double(i)) + " with " + S(double(o.frames.size())) + " points is reported, want it " + (full || gone ? "dropped" : "continued"));
      } else {
        c.Check(got.count(i) == 1, "track of feature " + S(double(i)) + " with " + S(double(o.frames.size())) + " points is not reported");
        auto & x = *got[i];
        c.Check(x.track.size() == o.frames.size(), "length of a track " + S(double(x.track.size())) + " want " + S(double(o.frames.size())));
        for (size_t k = 0; k < o.frames.size(); ++k) {
          auto & fp = x.track[k];
          c.Check(fp.frame_id == o.frames[k] && fp.frame_time == o.times[k] && fp.key_point.class_id == int(i), "frames of a track, in order");
          CheckPoint(c, fp.key_point, o.images[k], s.errors);
        }
        c.Check(x.true_feature_position == Vector3d(all[i].x, all[i].y, all[i].z), "true position of the feature of a track");
        got.erase(i);
        ++ended;
        cut += full;
      }
      if (full || gone) {it = open.erase(it);} else {++it;}
    }
    for (auto & x : got) {c.Check(unclear.count(x.first), "track of a feature that was not followed");}
  }
  c.note << ended << " tracks";
  c.Label(cut ? "cut at the maximum length" : "none cut");
  if (ended > cut) {c.Label("ended by view");}
  if (ended) {c.NonTrivial();}
}

static SimFiducialTracker::Parameters AnyBoard(Gen & g, Scene & s)
{
  SimFiducialTracker::Parameters p;
  p.no_errors = !s.errors;
  p.pos_error = AnyError(g, 1e-3, 0.5);
  p.ang_error = AnyError(g, 1e-3, 0.1);
  p.t_vec_error = AnyError(g, 1e-3, 0.5);
  p.r_vec_error = AnyError(g, 1e-3, 0.05);
  auto & f = p.fiducial_params;
  f.camera_id = s.id;
  f.logger = Silent();
  f.ekf = s.ekf;
  f.detector_type = g.Coin() ? FiducialType::ARUCO_BOARD : FiducialType::CHARUCO_BOARD;
  f.squares_x = 3;
  f.squares_y = 4;
  f.square_length = 0.1;
  f.marker_length = 0.05;
  f.id = g.UInt(1, 5);
  f.pos_f_in_l = Vec(g, 5);
  f.ang_f_to_l = Quat(g);
  f.is_extrinsic = g.Coin(0.3);
  return p;
}
static Vector3d Turn(const Quaterniond & q, const ref::M3 & want)
{
  return ref::Log(ref::Rot(q) * want.transpose()).cast<double>();
}
static void CheckBoard(Case & c, Scene & s, const SimFiducialTracker & b, const SimFiducialTracker::Parameters & p)
{
  auto & e = *s.m.engine;
  unsigned int id = const_cast<SimFiducialTracker &>(b).GetID();
  Vector3d pos = e.GetBoardPosition(id) - p.fiducial_params.pos_f_in_l;
  Vector3d ang = Turn(e.GetBoardOrientation(id), ref::Rot(p.fiducial_params.ang_f_to_l));
  for (int i = 0; i < 3; ++i) {
    if (!s.errors) {
      c.Check(pos[i] == 0 && std::abs(ang[i]) < 1e-9, "true board pose as configured");
    } else {
      c.Check(std::abs(pos[i]) <= 7.5 * p.pos_error[i] + 1e-12 && (pos[i] != 0 || p.pos_error[i] == 0), "true board position drawn around the configured one");
      c.Check(std::abs(ang[i]) <= 7.5 * p.ang_error[i] + 1e-7 + 0.6 * p.ang_error.norm() * p.ang_error.norm(), "true board orientation drawn around the configured one");
    }
  }
  c.Check((!s.errors || p.ang_error.norm() == 0) == (ang.norm() < 1e-9), "true board orientation error");
}
static void CheckDetection(
  Case & c, Scene & s, unsigned int id, const SimFiducialTrackerMessage & msg, double t, unsigned int frame,
  std::vector<Vector3d> & ep, std::vector<Vector3d> & ea)
{
  auto & e = *s.m.engine;
  c.Check(msg.time == t && msg.tracker_id == id && msg.sensor_id == s.id && msg.sensor_type == SensorType::Tracker, "origin of the message");
  c.Check(msg.is_board_visible, "board detection reported");
  auto & d = msg.board_detection;
  c.Check(d.frame_id == frame && d.frame_time == t, "frame of the detection");
  ref::M3 rb = ref::Rot(e.GetBodyAngularPosition(t)), rc = ref::Rot(e.GetCameraAngularPosition(s.id)), rf = ref::Rot(e.GetBoardOrientation(id));
  ref::V3 pc = e.GetBodyPosition(t).cast<real>() + rb * e.GetCameraPosition(s.id).cast<real>();
  ref::V3 want = (rb * rc).transpose() * (e.GetBoardPosition(id).cast<real>() - pc);
  ep.push_back(d.pos_f_in_c - want.cast<double>());
  ea.push_back(Turn(d.ang_f_to_c, (rb * rc).transpose() * rf));
  if (!s.errors) {
    c.Check(ep.back().norm() < 1e-9 * (1 + double(want.norm()) + double(pc.norm())), "position of the board seen " + S(d.pos_f_in_c) + " want " + S(want.cast<double>()));
    c.Check(ea.back().norm() < 1e-9, "orientation of the board seen is off by " + S(ea.back()));
  }
}

static void Boards(Gen & g, Case & c)
{
  bool errors = g.Coin();
  int n = errors ? 400 : g.Int(3, 20);
  double dt = g.Log(0.01, 0.2), max = n * dt + 0.01;
  Scene s = AnyScene(g, c, max, 1 / dt, errors);
  int nb = g.Int(1, 3);
  c.note << nb << " boards, " << n << " frames each " << dt << " s";
  std::vector<std::shared_ptr<SimFiducialTracker>> boards;
  std::vector<SimFiducialTracker::Parameters> params;
  std::vector<std::vector<Vector3d>> ep(nb), ea(nb);
  for (int i = 0; i < nb; ++i) {
    params.push_back(AnyBoard(g, s));
    params.back().fiducial_params.id = i + 1;
    boards.push_back(std::make_shared<SimFiducialTracker>(params.back(), s.m.engine));
  }
  for (int i = 0; i < nb; ++i) {CheckBoard(c, s, *boards[i], params[i]);}
  for (int j = 0; j < n; ++j) {
    for (int i = 0; i < nb; ++i) {
      auto msg = boards[i]->GenerateMessage(j * dt, j + 5);
      CheckDetection(c, s, boards[i]->GetID(), *msg, j * dt, j + 5, ep[i], ea[i]);
    }
  }
  for (int i = 0; i < nb && errors; ++i) {
    CheckNoise(c, ep[i], params[i].t_vec_error, "position noise of the board seen");
    // Noise of a turn about the three axes one after the other: second order terms
    Vector3d sd = params[i].r_vec_error;
    double second = 3 * sd.squaredNorm();
    for (int k = 0; k < 3; ++k) {
      double mean = 0, var = 0;
      for (auto & x : ea[i]) {mean += x[k] / n;}
      for (auto & x : ea[i]) {var += (x[k] - mean) * (x[k] - mean) / n;}
      double rel = 6.5 * std::sqrt(2.0 / n);
      c.Check(std::abs(mean) < 6.5 * sd[k] / std::sqrt(n) + second + 1e-9, "orientation noise of the board seen: mean " + S(mean) + " for deviation " + S(sd[k]));
      double dev = std::sqrt(var);
      c.Check(dev <= sd[k] * std::sqrt(1 + rel) + second + 1e-9 && dev >= sd[k] * std::sqrt(1 - rel) - second - 1e-9,
        "orientation noise of the board seen: deviation " + S(dev) + " want " + S(sd[k]));
    }
  }
  c.NonTrivial();
}

// All messages of one or two cameras: times, frames, one message for each tracker and board; no image point is lost or doubled
static void Frames(Gen & g, Case & c)
{
  double rate = g.Real(2.0, 30.0), max = g.Real(0.5, 3.0);
  bool errors = g.Coin();
  std::set<unsigned int> frames;
  int cams = g.Int(1, 2);
  size_t points = 0;
  for (int k = 0; k < cams; ++k) {
    Scene s = AnyScene(g, c, max, rate, errors);
    int nt = g.Int(0, 2), nb = g.Int(0, 2);
    std::map<unsigned int, std::pair<unsigned int, unsigned int>> trackers;
    std::map<unsigned int, SimFiducialTracker::Parameters> boards;
    std::map<unsigned int, std::vector<Vector3d>> ep, ea;
    for (int i = 0; i < nt; ++i) {
      unsigned int lo, hi, count;
      auto t = AnyTracker(g, s, lo, hi, count);
      trackers[t->GetID()] = {lo, hi};
      s.cam->AddTracker(t);
    }
    for (int i = 0; i < nb; ++i) {
      auto p = AnyBoard(g, s);
      auto b = std::make_shared<SimFiducialTracker>(p, s.m.engine);
      boards[b->GetID()] = p;
      s.cam->AddFiducial(b);
    }
    auto msgs = s.cam->GenerateMessages();
    std::vector<double> times;
    std::map<unsigned int, size_t> order;
    for (auto & x : msgs) {
      c.Check(x->sensor_id == s.id && x->sensor_type == SensorType::Camera, "sensor of the message");
      c.Check(frames.insert(x->frame_id).second, "frame numbers differ");
      c.Check(order.empty() || x->frame_id > msgs[order.size() - 1]->frame_id, "frame numbers grow");
      order[x->frame_id] = times.size();
      times.push_back(x->time);
    }
    if (errors) {CheckTimesScattered(c, times, rate, max, s.p.time_error);} else {CheckTimes(c, times, rate, max);}
    std::set<std::pair<unsigned int, std::pair<int, unsigned int>>> used;
    for (size_t j = 0; j < msgs.size(); ++j) {
      auto & x = *msgs[j];
      std::set<unsigned int> from;
      for (auto & f : x.feature_track_messages) {
        c.Check(trackers.count(f->tracker_id) && from.insert(f->tracker_id).second && f->time == x.time && f->sensor_id == s.id, "one message for each tracker");
        auto len = trackers[f->tracker_id];
        for (auto & tr : f->feature_tracks) {
          c.Check(tr.track.size() >= len.first && tr.track.size() <= std::max(1u, len.second), "length of a track");
          size_t last = order.at(tr.track.back().frame_id);
          c.Check(last == j || last + 1 == j, "a track is reported when it ends");
          c.Check(last == j ? tr.track.size() >= len.second : true, "a track that goes on is reported only at the maximum length");
          for (size_t i = 0; i < tr.track.size(); ++i) {
            auto & fp = tr.track[i];
            c.Check(order.count(fp.frame_id) && times[order[fp.frame_id]] == fp.frame_time, "image points belong to frames of the camera");
            c.Check(order[fp.frame_id] == last + 1 + i - tr.track.size(), "tracks have no gaps");
            c.Check(fp.key_point.class_id == tr.track[0].key_point.class_id, "a track follows one feature");
            c.Check(used.insert({f->tracker_id, {fp.key_point.class_id, fp.frame_id}}).second, "an image point is used once");
            ++points;
          }
        }
      }
      c.Check(from.size() == trackers.size(), "a message for each tracker");
      from.clear();
      for (auto & f : x.fiducial_track_messages) {
        c.Check(boards.count(f->tracker_id) && from.insert(f->tracker_id).second, "one message for each board");
        CheckDetection(c, s, f->tracker_id, *f, x.time, x.frame_id, ep[f->tracker_id], ea[f->tracker_id]);
      }
      c.Check(from.size() == boards.size(), "a message for each board");
    }
  }
  c.note << cams << " cameras, " << frames.size() << " frames, " << points << " image points";
  if (points > 10) {c.NonTrivial();}
}

int main(int argc, char ** argv)
{
  pbt::Property p;
  p.id = "C20";
  p.rule = "more than three image points in view; at least one track reported; boards seen; more than ten image points in tracks";
  p.assumptions = {
    "image points within the numerical tolerance of the image border or the camera plane are not judged",
    "boards are reported in every frame, in view or not (as the simulator does)",
    "noise of board detections is judged by mean and deviation of 400 detections, with bounds of at least six standard errors"};
  p.Add("keypoints", 3000, 100000, KeyPoints);
  p.Add("tracks", 1500, 50000, Tracks);
  p.Add("boards", 1000, 30000, Boards);
  p.Add("frames", 800, 20000, Frames);
  return pbt::Main(argc, argv, {p});
}
