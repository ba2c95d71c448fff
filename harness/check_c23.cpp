// C23: from camera images to measurements
#include <opencv2/aruco/charuco.hpp>
#include <opencv2/opencv.hpp>

#include "files.hpp"
#include "truth.hpp"

#include "ekf/update/fiducial_updater.hpp"
#include "sensors/camera.hpp"
#include "sensors/camera_message.hpp"
#include "trackers/feature_tracker.hpp"
#include "trackers/fiducial_tracker.hpp"

using namespace truth;
using ref::real;

// A pinhole image of a textured plane. to_tex maps plane coordinates (x, y, 1) to texture pixels
static cv::Mat Render(
  const Intrinsics & k, const Eigen::Matrix3d & r_c_to_p, const Vector3d & c_in_p, const cv::Mat & tex, const Eigen::Matrix3d & to_tex, int back)
{
  int w = int(k.width), h = int(k.height);
  cv::Mat img(h, w, CV_8UC1, cv::Scalar(back));
  double fx = k.f_x / k.pixel_size, fy = k.f_y / k.pixel_size;
  for (int v = 0; v < h; ++v) {
    for (int u = 0; u < w; ++u) {
      // the ray that is seen at this pixel (lens distortion removed by fixed point iteration)
      double xd = (u - k.width / 2) / fx, yd = (v - k.height / 2) / fy, x = xd, y = yd;
      if (k.k_1 != 0 || k.k_2 != 0 || k.p_1 != 0 || k.p_2 != 0) {
        for (int i = 0; i < 8; ++i) {
          double s = x * x + y * y, d = 1 + k.k_1 * s + k.k_2 * s * s;
          double nx = (xd - 2 * k.p_1 * x * y - k.p_2 * (s + 2 * x * x)) / d;
          y = (yd - k.p_1 * (s + 2 * y * y) - 2 * k.p_2 * x * y) / d;
          x = nx;
        }
      }
      Vector3d d = r_c_to_p * Vector3d(x, y, 1);
      if (d.z() * c_in_p.z() >= 0) {continue;}
      double s = -c_in_p.z() / d.z();
      Vector3d t = to_tex * Vector3d(c_in_p.x() + s * d.x(), c_in_p.y() + s * d.y(), 1);
      if (!(t.x() >= 0 && t.y() >= 0 && t.x() < tex.cols - 1 && t.y() < tex.rows - 1)) {continue;}
      int i = int(t.x()), j = int(t.y());
      double a = t.x() - i, b = t.y() - j;
      const uint8_t * p = tex.ptr(j) + i, * q = tex.ptr(j + 1) + i;
      img.at<uint8_t>(v, u) = cv::saturate_cast<uint8_t>((1 - b) * ((1 - a) * p[0] + a * p[1]) + b * ((1 - a) * q[0] + a * q[1]));
    }
  }
  return img;
}

static Intrinsics AnyIntrinsics(Gen & g, bool lens)
{
  Intrinsics k;
  k.width = 2 * g.Int(200, 320);
  k.height = 2 * g.Int(180, 240);
  k.pixel_size = 5e-6;
  k.f_x = g.Real(0.7, 1.2) * k.width * k.pixel_size;
  k.f_y = k.f_x * (g.Coin() ? 1.0 : g.Real(0.9, 1.1));
  k.k_1 = k.k_2 = k.p_1 = k.p_2 = 0;
  if (lens) {
    k.k_1 = g.Sym(0.1);
    k.k_2 = g.Sym(0.02);
    k.p_1 = g.Sym(0.003);
    k.p_2 = g.Sym(0.003);
  }
  return k;
}

struct Rig
{
  std::shared_ptr<EKF> ekf;
  std::shared_ptr<Camera> cam;
  Intrinsics k;
  Vector3d pos_c;
  Quaterniond ang_c;
};
static Rig MakeRig(Gen & g, const Intrinsics & k, bool root, AugmentationType aug, const std::string & dir = "", unsigned int tracks = 20)
{
  Rig r;
  EKF::Parameters p;
  p.debug_logger = Silent();
  p.use_root_covariance = root;
  p.augmenting_type = aug;
  p.log_directory = dir;
  p.augmenting_delta_time = 0.05;
  r.ekf = std::make_shared<EKF>(p);
  r.ekf->SetMaxTrackLength(tracks);
  r.k = k;
  r.pos_c = Vec(g, 0.3);
  r.ang_c = Quat(g);
  Camera::Parameters q;
  q.logger = p.debug_logger;
  q.ekf = r.ekf;
  q.rate = 10;
  q.pos_c_in_b = r.pos_c;
  q.ang_c_to_b = r.ang_c;
  q.intrinsics = k;
  r.cam = std::make_shared<Camera>(q);
  return r;
}
static void Place(EKF & ekf, const Vector3d & p, const Quaterniond & q)
{
  ekf.m_state.body_state.pos_b_in_l = p;
  ekf.m_state.body_state.ang_b_to_l = q;
}

// ---- Boards ----
struct BoardView
{
  cv::Mat image;
  Vector3d pos_f_in_c;
  Eigen::Matrix3d rot_f_to_c;
};
static Eigen::Matrix3d PlaneToTexture(Case & c, FiducialTracker & t, const cv::Mat & tex)
{
  // Fitted to the markers found in the flat drawing
  std::vector<int> ids;
  std::vector<std::vector<cv::Point2f>> corners;
  cv::Mat framed;
  int m = 40;
  cv::copyMakeBorder(tex, framed, m, m, m, m, cv::BORDER_CONSTANT, cv::Scalar(255));
  cv::aruco::detectMarkers(framed, t.m_dict, corners, ids);
  std::vector<Eigen::Vector3d> a;
  std::vector<Eigen::Vector2d> b;
  for (size_t i = 0; i < ids.size(); ++i) {
    for (size_t j = 0; j < t.m_board->ids.size(); ++j) {
      if (t.m_board->ids[j] != ids[i]) {continue;}
      for (int k = 0; k < 4; ++k) {
        auto & o = t.m_board->objPoints[j][k];
        a.push_back({o.x, o.y, 1});
        b.push_back({corners[i][k].x - m, corners[i][k].y - m});
      }
    }
  }
  if (a.size() < 16) {c.Skip();}
  Eigen::MatrixXd x(a.size(), 3), y(a.size(), 2);
  for (size_t i = 0; i < a.size(); ++i) {
    x.row(i) = a[i].transpose();
    y.row(i) = b[i].transpose();
  }
  Eigen::MatrixXd s = x.colPivHouseholderQr().solve(y);
  Eigen::Matrix3d r = Eigen::Matrix3d::Identity();
  r.topRows(2) = s.transpose();
  return r;
}

static FiducialTracker::Parameters AnyBoard(Gen & g, const Rig & r)
{
  FiducialTracker::Parameters p;
  p.camera_id = r.cam->GetId();
  p.ekf = r.ekf;
  p.logger = Silent();
  p.detector_type = g.Coin() ? FiducialType::CHARUCO_BOARD : FiducialType::ARUCO_BOARD;
  p.predefined_dict = g.Int(0, 3) * 4;  // 50 markers of 4x4, 5x5, 6x6 or 7x7 bits
  p.squares_x = g.UInt(4, 6);
  p.squares_y = g.UInt(4, 6);
  p.square_length = g.Real(0.03, 0.3);
  p.marker_length = p.square_length * g.Real(0.6, 0.8);
  if (p.detector_type == FiducialType::ARUCO_BOARD) {p.marker_length = p.square_length * g.Real(0.2, 0.5);}
  p.id = g.UInt(0, 5);
  p.is_extrinsic = true;
  p.variance = Eigen::VectorXd(6);
  for (int i = 0; i < 6; ++i) {p.variance(i) = g.Log(1e-4, 1e-2);}
  return p;
}

static cv::Mat Draw(FiducialTracker & t, FiducialType type, int px)
{
  cv::Mat tex;
  auto & b = t.m_board;
  if (type == FiducialType::CHARUCO_BOARD) {
    auto s = b.staticCast<cv::aruco::CharucoBoard>()->getChessboardSize();
    b.staticCast<cv::aruco::CharucoBoard>()->draw(cv::Size(px, px * s.height / s.width), tex, 0, 1);
  } else {
    auto s = b.staticCast<cv::aruco::GridBoard>()->getGridSize();
    b.staticCast<cv::aruco::GridBoard>()->draw(cv::Size(px, px * s.height / s.width), tex, 10, 1);
  }
  return tex;
}

// A view of the board from in front, covering much of the image
static BoardView AnyView(Gen & g, const Intrinsics & k, const cv::Mat & tex, const Eigen::Matrix3d & to_tex, double tilt)
{
  Eigen::Matrix3d inv = to_tex.inverse();
  Vector3d mid = inv * Vector3d(tex.cols / 2.0, tex.rows / 2.0, 1);
  double w = (inv * Vector3d(tex.cols, tex.rows / 2.0, 1) - inv * Vector3d(0, tex.rows / 2.0, 1)).norm();
  double h = (inv * Vector3d(tex.cols / 2.0, tex.rows, 1) - inv * Vector3d(tex.cols / 2.0, 0, 1)).norm();
  double size = std::hypot(w, h), f = std::min(k.f_x, k.f_y) / k.pixel_size;
  double d = size * f / (std::min(k.width, k.height) * g.Real(0.75, 0.95));
  // Plane axes as the camera sees them for an upright picture
  Eigen::Matrix3d up = Eigen::Matrix3d::Identity();
  if (to_tex.topLeftCorner<2, 2>().determinant() < 0) {up = Eigen::AngleAxisd(M_PI, Vector3d::UnitX()).toRotationMatrix();}
  Eigen::Matrix3d turn = Eigen::AngleAxisd(g.Sym(M_PI), Vector3d::UnitZ()).toRotationMatrix();
  double a = g.Sym(M_PI), t = g.Real(0.0, tilt);
  Eigen::Matrix3d lean = Eigen::AngleAxisd(t, Vector3d(std::cos(a), std::sin(a), 0)).toRotationMatrix();
  BoardView v;
  v.rot_f_to_c = lean * turn * up;
  Vector3d at(g.Sym(0.03) * d, g.Sym(0.03) * d, d * (1 + 0.3 * t));
  v.pos_f_in_c = at - v.rot_f_to_c * Vector3d(mid.x(), mid.y(), 0);
  v.image = Render(k, v.rot_f_to_c.transpose(), -(v.rot_f_to_c.transpose() * v.pos_f_in_c), tex, to_tex, 255);
  return v;
}

struct BoardScene
{
  Rig a, b;  // one is shown images, the other one is given poses
  FiducialTracker::Parameters p;
  std::shared_ptr<FiducialTracker> tracker;
  std::shared_ptr<FiducialUpdater> updater;
  cv::Mat tex;
  Eigen::Matrix3d to_tex;
  BoardView view;
  double dist;
};
static BoardScene AnyBoardScene(Gen & g, Case & c, double tilt)
{
  BoardScene s;
  Intrinsics k = AnyIntrinsics(g, g.Coin(0.4));
  bool root = g.Coin();
  auto aug = g.Coin() ? AugmentationType::ALL : AugmentationType::NONE;
  s.a = MakeRig(g, k, root, aug);
  s.p = AnyBoard(g, s.a);
  // A drawing to see where the board is
  {
    auto p = s.p;
    p.ekf = AnyEkf();
    p.pos_f_in_l = Vector3d::Zero();
    p.ang_f_to_l = Quaterniond::Identity();
    FiducialTracker t(p);
    s.tex = Draw(t, p.detector_type, 420);
    s.to_tex = PlaneToTexture(c, t, s.tex);
    cv::GaussianBlur(s.tex, s.tex, cv::Size(3, 3), 0.6);
  }
  s.view = AnyView(g, k, s.tex, s.to_tex, tilt);
  s.dist = s.view.pos_f_in_c.norm();
  Vector3d pos_b = Vec(g, 3);
  Quaterniond ang_b = Quat(g);
  Quaterniond rot(s.view.rot_f_to_c);
  Vector3d pos_f = pos_b + ang_b * (s.a.pos_c + s.a.ang_c * s.view.pos_f_in_c);
  Quaterniond ang_f = ang_b * s.a.ang_c * rot;
  s.p.pos_f_in_l = pos_f + g.Real(0.1, 0.5) * s.dist * UnitVec(g);
  Vector3d axis = UnitVec(g);
  s.p.ang_f_to_l = ang_f * Quaterniond(Eigen::AngleAxisd(g.Real(0.1, 0.5), axis));
  s.tracker = std::make_shared<FiducialTracker>(s.p);
  s.a.cam->AddFiducial(s.tracker);
  // the twin
  EKF::Parameters ep;
  ep.debug_logger = Silent();
  ep.use_root_covariance = root;
  ep.augmenting_type = aug;
  ep.log_directory = "";
  s.b = s.a;
  s.b.ekf = std::make_shared<EKF>(ep);
  s.b.ekf->SetMaxTrackLength(20);
  CamState cs = s.a.ekf->m_state.cam_states.at(s.a.cam->GetId());
  s.b.ekf->RegisterCamera(s.a.cam->GetId(), cs, Eigen::MatrixXd(Eigen::VectorXd::Constant(6, 1e-6).asDiagonal()));
  FidState fs;
  fs.SetIsExtrinsic(true);
  fs.pos_f_in_l = s.p.pos_f_in_l;
  fs.ang_f_to_l = s.p.ang_f_to_l;
  fs.id = s.p.id;
  s.b.ekf->RegisterFiducial(fs, s.p.variance.asDiagonal());
  s.updater = std::make_shared<FiducialUpdater>(s.p.id, s.a.cam->GetId(), true, false, "", 0.0, Silent());
  for (auto & e : {s.a.ekf, s.b.ekf}) {
    e->Initialize(0.0, BodyState());
    Place(*e, pos_b, ang_b);
  }
  c.note << (s.p.detector_type == FiducialType::CHARUCO_BOARD ? "charuco " : "aruco ") << s.p.squares_x << "x" << s.p.squares_y << " at " << S(s.view.pos_f_in_c);
  return s;
}
static void Same(Case & c, EKF & a, EKF & b, double tol, const std::string & what)
{
  Eigen::VectorXd x = a.m_state.ToVector(), y = b.m_state.ToVector();
  c.Check(x.size() == y.size(), "state size " + what);
  // Rotation vectors of the body, the board and the clones: the one of the two equal ones that is nearer
  for (int i = 9; i + 3 <= x.size(); i = i == 9 ? 21 : i + 6) {
    Vector3d r = x.segment<3>(i);
    if (r.norm() < 1e-9) {continue;}
    Vector3d o = r * (1 - 2 * M_PI / r.norm());
    if ((o - y.segment<3>(i)).norm() < (r - y.segment<3>(i)).norm()) {x.segment<3>(i) = o;}
  }
  CheckNear(c, x, y, tol, "state " + what);
  Eigen::MatrixXd p = util::Full(a.m_cov, a.GetUseRootCovariance()), q = util::Full(b.m_cov, b.GetUseRootCovariance());
  CheckNear(c, p, q, std::max(0.1 * tol, 1e-9) * (1 + q.norm()), "covariance " + what);
}
static void Show(BoardScene & s, const cv::Mat & img, double t)
{
  cv::Mat copy = img.clone();
  CameraMessage m(copy);
  m.time = t;
  m.sensor_id = s.a.cam->GetId();
  s.a.cam->Callback(m);
}

static void BoardPose(Gen & g, Case & c)
{
  BoardScene s = AnyBoardScene(g, c, 0.7);
  double t = g.Real(0.0, 0.1);
  {
    // Judged where all markers can be made out
    std::vector<int> ids;
    std::vector<std::vector<cv::Point2f>> corners;
    cv::aruco::detectMarkers(s.view.image, s.tracker->m_dict, corners, ids);
    if (ids.size() < s.tracker->m_board->ids.size()) {c.Skip();}
  }
  Show(s, s.view.image, t);
  s.b.ekf->PredictModel(s.b.ekf->CalculateLocalTime(t));
  s.b.ekf->AugmentStateIfNeeded(s.a.cam->GetId(), 1);
  Eigen::VectorXd before = s.b.ekf->m_state.ToVector();
  BoardDetection d;
  d.pos_f_in_c = s.view.pos_f_in_c;
  d.ang_f_to_c = Quaterniond(s.view.rot_f_to_c);
  d.pos_error = s.p.variance.head<3>();
  d.ang_error = s.p.variance.tail<3>();
  s.updater->UpdateEKF(*s.b.ekf, t, d);
  double moved = (s.b.ekf->m_state.ToVector() - before).norm();
  c.note << " correction " << moved;
  // Poses from images are good to some percent
  Same(c, *s.a.ekf, *s.b.ekf, 0.02 + 0.02 * s.dist, "after the image, against the state corrected by the true pose of the board");
  if (moved > 0.04 + 0.04 * s.dist) {c.NonTrivial();}
}

// Images that do not show enough of a board for its pose change nothing but the time
static void BoardNone(Gen & g, Case & c)
{
  BoardScene s = AnyBoardScene(g, c, 0.4);
  cv::Mat img = s.view.image.clone();
  int kind = g.Int(0, 2);
  if (kind == 0) {
    img.setTo(g.Int(0, 255));
    c.note << " blank";
  } else if (kind == 1) {
    cv::RNG r(g.UInt(1, 1000000));
    r.fill(img, cv::RNG::UNIFORM, 0, 256);
    c.note << " noise";
    std::vector<int> ids;
    std::vector<std::vector<cv::Point2f>> corners;
    cv::aruco::detectMarkers(img, s.tracker->m_dict, corners, ids);
    if (!ids.empty()) {c.Skip();}
  } else {
    // a window with one or two markers
    std::vector<int> ids;
    std::vector<std::vector<cv::Point2f>> corners;
    cv::aruco::detectMarkers(img, s.tracker->m_dict, corners, ids);
    if (ids.empty() || s.p.detector_type != FiducialType::CHARUCO_BOARD) {c.Skip();}
    // The marker and the nearest other one, which share a corner of the squares
    size_t i = g.Draw(ids.size() - 1);
    auto centre = [&](size_t k) {return (corners[k][0] + corners[k][1] + corners[k][2] + corners[k][3]) * 0.25f;};
    std::vector<cv::Point2f> keep = corners[i];
    if (ids.size() > 1 && g.Coin(0.7)) {
      size_t best = i;
      double near = 1e9;
      for (size_t k = 0; k < ids.size(); ++k) {
        double dd = cv::norm(centre(k) - centre(i));
        if (k != i && dd < near) {near = dd; best = k;}
      }
      keep.insert(keep.end(), corners[best].begin(), corners[best].end());
    }
    std::vector<cv::Point2f> hull;
    cv::convexHull(keep, hull);
    cv::Point2f mid(0, 0);
    for (auto & p : hull) {mid += p * (1.0f / hull.size());}
    std::vector<cv::Point> poly;
    for (auto & p : hull) {poly.push_back(mid + (p - mid) * 1.35f);}
    cv::Mat mask(img.size(), CV_8UC1, cv::Scalar(0)), cut(img.size(), CV_8UC1, cv::Scalar(255));
    cv::fillConvexPoly(mask, poly, cv::Scalar(255));
    img.copyTo(cut, mask);
    img = cut;
    corners.clear();
    ids.clear();
    cv::aruco::detectMarkers(img, s.tracker->m_dict, corners, ids);
    if (ids.size() > 2) {c.Skip();}
    c.note << " window with " << ids.size() << " markers";
    if (!ids.empty()) {c.Label("window with markers");}
  }
  double t = g.Real(0.0, 0.1);
  Show(s, img, t);
  s.b.ekf->PredictModel(s.b.ekf->CalculateLocalTime(t));
  s.b.ekf->AugmentStateIfNeeded(s.a.cam->GetId(), 1);
  Same(c, *s.a.ekf, *s.b.ekf, 1e-9, "after an image without a board pose");
  c.NonTrivial();
}

// ---- Features ----
static cv::Mat AnyTexture(Gen & g, int w, int h)
{
  cv::RNG r(g.UInt(1, 1000000));
  cv::Mat tex(h, w, CV_8UC1, cv::Scalar(128));
  int n = w * h / 500;
  for (int i = 0; i < n; ++i) {
    cv::Point p(r.uniform(0, w), r.uniform(0, h));
    cv::Point q = p + cv::Point(r.uniform(5, 25), r.uniform(5, 25));
    if (r.uniform(0, 2)) {cv::rectangle(tex, p, q, cv::Scalar(r.uniform(0, 256)), -1);} else {cv::circle(tex, p, r.uniform(3, 12), cv::Scalar(r.uniform(0, 256)), -1);}
  }
  cv::GaussianBlur(tex, tex, cv::Size(3, 3), 0.7);
  return tex;
}
static FeatureTracker::Parameters AnyTracker(Gen & g, const Rig & r, const std::string & dir)
{
  FeatureTracker::Parameters p;
  p.camera_id = r.cam->GetId();
  p.ekf = r.ekf;
  p.logger = Silent();
  p.log_directory = dir;
  p.data_log_rate = 1e7;
  p.px_error = 1.0;
  p.min_feat_dist = 0.1;
  return p;
}

// Features followed through images of a known plane from known poses are found on that plane
static void FollowFeatures(Gen & g, Case & c, std::vector<double> & off)
{
  Scratch dir;
  Intrinsics k = AnyIntrinsics(g, false);
  // Points are placed in time by their frame or, with clones at intervals, by the time of their image
  bool timed = g.Coin(0.4);
  Rig r = MakeRig(g, k, g.Coin(), timed ? AugmentationType::TIME : AugmentationType::ALL, "", 20);
  auto p = AnyTracker(g, r, dir.dir);
  p.detector = g.Pick(std::vector<Detector>{Detector::FAST, Detector::ORB, Detector::GFTT});
  p.descriptor = Descriptor::ORB;
  p.matcher = g.Coin() ? Matcher::BRUTE_FORCE : Matcher::FLANN;
  p.min_track_length = g.UInt(2, 3);
  p.max_track_length = g.UInt(3, 6);
  p.down_sample = g.Coin(0.3);
  p.down_sample_width = int(k.width * g.Real(0.6, 0.8));
  p.down_sample_height = int(k.height * g.Real(0.6, 0.8));
  auto tracker = std::make_shared<FeatureTracker>(p);
  r.cam->AddTracker(tracker);
  // The filter is certain of itself: it is placed at the true poses
  double certain = 1e-12;
  r.ekf->m_cov = Eigen::MatrixXd::Identity(r.ekf->m_cov.rows(), r.ekf->m_cov.cols()) * certain;
  r.ekf->Initialize(0.0, BodyState());
  double depth = g.Real(2.0, 8.0), px = depth / (k.f_x / k.pixel_size);
  cv::Mat tex = AnyTexture(g, int(k.width * 2), int(k.height * 2));
  Eigen::Matrix3d to_tex;
  to_tex << 1 / px, 0, tex.cols / 2.0, 0, 1 / px, tex.rows / 2.0, 0, 0, 1;
  // Plane z = 0 of a frame P somewhere in the local frame; the camera looks along its z axis
  Quaterniond q_p = Quat(g);
  Vector3d p_p = Vec(g, 5);
  int n = g.Int(5, 8);
  double step = g.Real(0.05, 0.09) * depth, dir_a = g.Sym(M_PI);
  bool turned = g.Coin();
  Vector3d at(-0.5 * n * step * std::cos(dir_a), -0.5 * n * step * std::sin(dir_a), -depth);
  c.note << n << " frames, depth " << depth << ", step " << step << ", tracks " << p.min_track_length << " to " << p.max_track_length << (p.down_sample ? ", down-sampled" : "") << (turned ? ", turning" : "") << (timed ? ", clones by time" : "");
  {  // Clones are made once there was an image
    CameraMessage m(cv::Mat(int(k.height), int(k.width), CV_8UC1, cv::Scalar(128)));
    m.time = 0.0;
    m.sensor_id = r.cam->GetId();
    r.cam->Callback(m);
  }
  for (int i = 0; i < n; ++i) {
    Vector3d tilt = turned ? Vec(g, 0.03) : Vector3d::Zero();
    Quaterniond q_c = Quaterniond(Eigen::AngleAxisd(tilt.norm(), tilt.norm() > 0 ? Vector3d(tilt.normalized()) : Vector3d::UnitX()));
    cv::Mat img = Render(k, q_c.toRotationMatrix(), at, tex, to_tex, 128);
    Quaterniond ang_b = q_p * q_c * r.ang_c.inverse();
    Vector3d pos_b = p_p + q_p * at - ang_b * r.pos_c;
    double t = 0.1 * (i + 1);
    Place(*r.ekf, pos_b, ang_b);  // does not move until gravity is known
    r.ekf->PredictModel(t);
    CameraMessage m(img);
    m.time = t;
    m.sensor_id = r.cam->GetId();
    r.cam->Callback(m);
    at += step * Vector3d(std::cos(dir_a), std::sin(dir_a), 0);
  }
  auto rows = Lines(dir.dir + "triangulation_" + std::to_string(r.cam->GetId()) + ".csv");
  for (size_t i = 1; i < rows.size(); ++i) {
    auto w = Split(rows[i]);
    c.Check(w.size() == 5, "columns of the triangulation log");
    Vector3d f(atof(w[2].c_str()), atof(w[3].c_str()), atof(w[4].c_str()));
    off.push_back(std::abs((q_p.inverse() * (f - p_p)).z()) / depth);
  }
  c.note << ", " << off.size() << " features";
}
static void Triangulated(Gen & g, Case & c)
{
  std::vector<double> off;
  for (int i = 0; i < 6 && off.size() < 12; ++i) {
    if (i > 0) {c.note << "; ";}
    FollowFeatures(g, c, off);
  }
  c.Check(off.size() >= 12, "only " + S(double(off.size())) + " features were followed and triangulated");
  std::sort(off.begin(), off.end());
  c.note << ", median distance from the plane " << off[off.size() / 2];
  c.Check(off[off.size() / 2] < 0.08, "features are off the plane by " + S(off[off.size() / 2]) + " of its distance (median)");
  c.NonTrivial();
}

// Any sequence of images is survived, with finite estimates
static void AnyImages(Gen & g, Case & c)
{
  Intrinsics k = AnyIntrinsics(g, false);
  k.width = 2 * g.Int(20, 120);
  k.height = 2 * g.Int(20, 120);
  Rig r = MakeRig(g, k, g.Coin(), g.Pick(std::vector<AugmentationType>{
    AugmentationType::ALL, AugmentationType::PRIMARY, AugmentationType::TIME, AugmentationType::ERROR}), "", g.UInt(2, 6));
  auto p = AnyTracker(g, r, "");
  p.data_log_rate = 0;
  p.detector = g.Pick(std::vector<Detector>{Detector::FAST, Detector::BRISK, Detector::GFTT, Detector::MSER, Detector::ORB, Detector::SIFT});
  p.descriptor = p.detector == Detector::SIFT ? Descriptor::SIFT : Descriptor::ORB;
  p.matcher = g.Coin() ? Matcher::BRUTE_FORCE : Matcher::FLANN;
  p.max_track_length = g.UInt(2, 6);
  p.down_sample = g.Coin(0.3);
  p.down_sample_width = int(k.width) / 2 + 10;
  p.down_sample_height = int(k.height) / 2 + 10;
  r.cam->AddTracker(std::make_shared<FeatureTracker>(p));
  r.ekf->Initialize(0.0, BodyState());
  cv::Mat tex = AnyTexture(g, 600, 600);
  int n = g.Int(1, 10);
  double t = 0;
  c.note << int(k.width) << "x" << int(k.height) << " detector " << int(p.detector) << " matcher " << int(p.matcher);
  cv::Mat last;
  int x = 200, y = 200, textured = 0;
  for (int i = 0; i < n; ++i) {
    int kind = g.Int(0, 5);
    cv::Mat img(int(k.height), int(k.width), CV_8UC1, cv::Scalar(100));
    if (kind == 0) {
      c.note << "; blank";
    } else if (kind == 1) {
      cv::RNG rng(g.UInt(1, 100000));
      rng.fill(img, cv::RNG::UNIFORM, 0, 256);
      c.note << "; noise";
    } else if (kind == 2) {
      int dots = g.Int(1, 3);
      for (int j = 0; j < dots; ++j) {cv::rectangle(img, cv::Rect(g.Int(0, int(k.width) - 8), g.Int(0, int(k.height) - 8), 7, 7), cv::Scalar(255), -1);}
      c.note << "; " << dots << " dots";
    } else if (kind == 3 && !last.empty()) {
      img = last.clone();
      c.note << "; the same";
    } else {
      x = std::min(std::max(x + g.Int(-6, 6), 0), 600 - int(k.width));
      y = std::min(std::max(y + g.Int(-6, 6), 0), 600 - int(k.height));
      img = tex(cv::Rect(x, y, int(k.width), int(k.height))).clone();
      ++textured;
      c.note << "; texture at " << x << " " << y;
    }
    last = img.clone();
    t += g.Coin(0.1) ? 0.0 : g.Log(1e-3, 1.0);
    CameraMessage m(img);
    m.time = t;
    m.sensor_id = r.cam->GetId();
    r.cam->Callback(m);
    c.Check(r.ekf->m_state.ToVector().allFinite() && r.ekf->m_cov.allFinite(), "estimate is finite after image " + S(double(i)));
    c.Check(r.cam->m_out_img.rows == img.rows && r.cam->m_out_img.cols == img.cols, "output image of the same size");
  }
  if (textured > 1) {c.NonTrivial();}
}

// ---- Filters of the feature tracker ----
static std::vector<cv::KeyPoint> AnyPoints(Gen & g, int n, double w, double h)
{
  std::vector<cv::KeyPoint> v;
  for (int i = 0; i < n; ++i) {
    cv::KeyPoint k;
    k.pt.x = float(g.Real(-20, w + 20));
    k.pt.y = float(g.Real(-20, h + 20));
    k.class_id = i;
    k.response = float(g.Unit());
    v.push_back(k);
  }
  return v;
}
static void Grid(Gen & g, Case & c)
{
  int rows = g.Int(10, 300), cols = g.Int(10, 300);
  auto in = AnyPoints(g, g.Int(0, 80), cols, rows);
  auto copy = in;
  auto out = FeatureTracker::GridFeatures(copy, rows, cols);
  c.note << in.size() << " points in " << cols << "x" << rows << ": " << out.size() << " left";
  // One point for each full 10 pixel cell in which there is any, the first one; in their order
  std::set<std::pair<int, int>> cells;
  std::vector<int> want;
  for (auto & k : in) {
    if (k.pt.x < 0 || k.pt.y < 0) {continue;}
    int x = int(std::floor(k.pt.x / 10.0)), y = int(std::floor(k.pt.y / 10.0));
    if (x >= cols / 10 || y >= rows / 10) {continue;}
    if (cells.insert({x, y}).second) {want.push_back(k.class_id);}
  }
  std::vector<int> got;
  for (auto & k : out) {
    c.Check(k.class_id >= 0 && size_t(k.class_id) < in.size() && in[k.class_id].pt == k.pt && in[k.class_id].response == k.response, "points are not changed");
    got.push_back(k.class_id);
  }
  // Points within a pixel outside of the left and top edge may count as inside
  bool edge = false;
  for (auto & k : in) {edge = edge || (k.pt.x < 0 && k.pt.x > -1) || (k.pt.y < 0 && k.pt.y > -1);}
  if (edge) {c.Skip();}
  c.Check(got == want, "one point for each cell of the grid: " + S(double(got.size())) + " want " + S(double(want.size())));
  if (out.size() < in.size() && out.size() > 2) {c.NonTrivial();}
}
static void Matches(Gen & g, Case & c)
{
  FeatureTracker::Parameters p;
  p.ekf = AnyEkf();
  p.logger = Silent();
  p.camera_id = 1;
  FeatureTracker t(p);
  int a = g.Int(1, 12), b = g.Int(1, 12);
  c.note << a << " against " << b << " descriptors";
  // Distances of all pairs, and the two nearest each way
  std::vector<std::vector<float>> d(a, std::vector<float>(b));
  for (auto & row : d) {for (auto & x : row) {x = g.Coin(0.1) ? 1.0f : float(g.Real(0.1, 4.0));}}
  auto nearest = [&](int n, int m, bool forward) {
      std::vector<std::vector<cv::DMatch>> out;
      for (int i = 0; i < n; ++i) {
        std::vector<cv::DMatch> v;
        for (int j = 0; j < m; ++j) {v.emplace_back(i, j, forward ? d[i][j] : d[j][i]);}
        std::stable_sort(v.begin(), v.end());
        v.resize(std::min(v.size(), size_t(2)));
        out.push_back(v);
      }
      return out;
    };
  auto f = nearest(a, b, true), r = nearest(b, a, false);
  auto check = [&](const std::vector<std::vector<cv::DMatch>> & before) {
      auto after = before;
      t.RatioTest(after);
      c.Check(after.size() == before.size(), "matches keep their places");
      for (size_t i = 0; i < before.size(); ++i) {
        bool keep = before[i].size() == 2;
        if (keep) {
          double q = double(before[i][0].distance) / before[i][1].distance;
          if (std::abs(q - 0.7) < 1e-5) {return after;}
          keep = q <= 0.7;
        }
        c.Check(keep == !after[i].empty(), "ratio test");
        if (keep) {c.Check(after[i].size() == 2 && after[i][0].trainIdx == before[i][0].trainIdx && after[i][0].queryIdx == before[i][0].queryIdx, "kept matches are not changed");}
      }
      return after;
    };
  auto ff = check(f), rr = check(r);
  std::vector<cv::DMatch> out;
  t.SymmetryTest(ff, rr, out);
  std::set<std::pair<int, int>> want, got;
  for (auto & m : ff) {
    if (m.empty()) {continue;}
    auto & back = rr[m[0].trainIdx];
    if (!back.empty() && back[0].trainIdx == m[0].queryIdx) {want.insert({m[0].queryIdx, m[0].trainIdx});}
  }
  for (auto & m : out) {
    c.Check(got.insert({m.queryIdx, m.trainIdx}).second, "a match is given once");
    c.Check(m.distance == d[m.queryIdx][m.trainIdx], "distance of a match");
  }
  c.Check(got == want, "matches both ways: " + S(double(got.size())) + " want " + S(double(want.size())));
  if (!want.empty() && want.size() < size_t(std::min(a, b))) {c.NonTrivial();}
}

int main(int argc, char ** argv)
{
  cv::setNumThreads(1);
  pbt::Property p;
  p.id = "C23";
  p.rule = "the board corrects the state by more than twice the tolerance; images with texture; features left out and left in";
  p.assumptions = {
    "images are rendered views of drawn boards and textured planes, that cover much of the image",
    "poses from images are judged to two percent of the distance plus 0.02, features by the median of their distances from the plane",
    "the board drawing itself (what the lengths of a grid board mean) is taken from the tracker"};
  p.Add("board_pose", 250, 6000, BoardPose);
  p.Add("board_none", 250, 6000, BoardNone);
  p.Add("features", 60, 2000, Triangulated, 120.0);
  p.Add("any_images", 600, 20000, AnyImages, 60.0);
  p.Add("grid", 20000, 400000, Grid);
  p.Add("matches", 6000, 100000, Matches);
  return pbt::Main(argc, argv, {p});
}
