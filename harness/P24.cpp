#include "ekfgen.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "sensors/camera.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "trackers/feature_tracker.hpp"
#include "trackers/fiducial_tracker.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "ekf/update/msckf_updater.hpp"
#include "ekf/update/fiducial_updater.hpp"
#include <opencv2/aruco.hpp>
#include <opencv2/aruco/charuco.hpp>

typedef std::map<unsigned int, std::vector<FeaturePoint>> Tracks;

static bool same_point(const FeaturePoint & a, const FeaturePoint & b, bool time = true)
{
  return a.frame_id == b.frame_id && (!time || a.frame_time == b.frame_time) && a.key_point.pt.x == b.key_point.pt.x && a.key_point.pt.y == b.key_point.pt.y &&
         a.key_point.class_id == b.key_point.class_id;
}
static bool same_track(const std::vector<FeaturePoint> & a, const std::vector<FeaturePoint> & b)
{
  if (a.size() != b.size()) {return false;}
  for (size_t i = 0; i < a.size(); ++i) {if (!same_point(a[i], b[i])) {return false;}}
  return true;
}
static bool same_tracks(const Tracks & a, const Tracks & b)
{
  if (a.size() != b.size()) {return false;}
  for (auto & x : a) {auto y = b.find(x.first); if (y == b.end() || !same_track(x.second, y->second)) {return false;}}
  return true;
}
// the tracks that end in this frame leave the table; the long enough ones come out whole, in the order of their identifiers
static std::vector<std::vector<FeaturePoint>> finish(Tracks & t, unsigned int frame, unsigned int lo, unsigned int hi)
{
  std::vector<std::vector<FeaturePoint>> out;
  for (auto i = t.begin(); i != t.end(); ) {
    bool seen = i->second.back().frame_id >= frame;
    if (seen && i->second.size() < hi) {++i; continue;}
    if (i->second.size() >= lo) {out.push_back(i->second);}
    i = t.erase(i);
  }
  return out;
}

static void same_filters(H & h, const std::string & what, EKF & a, EKF & b)
{
  h.ok(what + ": the same clones", [&]() {
      if (a.m_state.aug_states.size() != b.m_state.aug_states.size()) {return false;}
      for (auto & x : a.m_state.aug_states) {
        auto y = b.m_state.aug_states.find(x.first);
        if (y == b.m_state.aug_states.end() || y->second.size() != x.second.size()) {return false;}
        for (size_t k = 0; k < x.second.size(); ++k) {if (x.second[k].frame_id != y->second[k].frame_id || x.second[k].time != y->second[k].time) {return false;}}
      }
      return true;
    }());
  h.near(what + ": time of the filter", a.GetCurrentTime(), b.GetCurrentTime(), 0);
  h.mat(what + ": state of the filter", a.m_state.ToVector(), b.m_state.ToVector(), 1e-9);
  h.mat(what + ": covariance of the filter", a.m_cov, b.m_cov, 1e-9);
}

// two simulated cameras with simulated trackers and markers
static void simulated(H & h)
{
  auto log = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
  auto ep = params(h, h.b(), AugmentationType::ALL);
  unsigned int hi = static_cast<unsigned int>(h.i(2, 6)), lo = static_cast<unsigned int>(h.i(2, static_cast<int>(hi)));
  auto A = std::make_shared<EKF>(ep), B = std::make_shared<EKF>(ep);
  unsigned int kept = hi + static_cast<unsigned int>(h.i(2, 4));
  A->SetMaxTrackLength(kept); B->SetMaxTrackLength(kept);
  auto e = std::make_shared<TruthEngineCyclic>(h.v3(1), h.v3(1), h.v3(0.5), h.v3(1), 1.0, 0.3, 0.0, 2.0, log);
  e->m_feature_points.clear(); e->m_feature_points_map.clear();
  int nf = h.i(3, 12);
  for (int i = 0; i < nf; ++i) {
    cv::Point3d p(h.u(-5, 5), h.u(-5, 5), h.u(-5, 5));
    e->m_feature_points.push_back(p); e->m_feature_points_map[static_cast<unsigned int>(i)] = p;
  }
  std::ostringstream o;
  o << "simulated cameras, track lengths " << lo << ".." << hi;
  h.ctx = o.str();
  std::set<unsigned int> frames;
  long last_frame = -1;
  double rate = h.i(2, 6);
  std::vector<std::shared_ptr<SimCamera>> cams;
  std::vector<std::vector<std::shared_ptr<SimFeatureTracker>>> trk;
  std::vector<std::vector<std::shared_ptr<SimFiducialTracker>>> fid;
  for (int c = 0; c < 2; ++c) {
    SimCamera::Parameters p;
    p.cam_params.is_extrinsic = h.b(); p.cam_params.rate = rate; p.cam_params.pos_c_in_b = h.v3(0.3); p.cam_params.ang_c_to_b = h.q(); p.cam_params.variance = VectorXd::Constant(6, 1e-3);
    p.cam_params.intrinsics.f_x = h.u(100, 400); p.cam_params.intrinsics.f_y = h.u(100, 400); p.cam_params.intrinsics.width = 640; p.cam_params.intrinsics.height = 480; p.cam_params.intrinsics.pixel_size = 1;
    p.cam_params.ekf = A; p.cam_params.logger = log; p.no_errors = true;
    auto s = std::make_shared<SimCamera>(p, e);
    cams.push_back(s);
    CamState cs = A->m_state.cam_states.at(s->GetId());
    B->RegisterCamera(s->GetId(), cs, MatrixXd(p.cam_params.variance.asDiagonal()));
    trk.emplace_back(); fid.emplace_back();
    int nt = h.i(0, 2), nm = h.i(0, 2);
    for (int k = 0; k < nt; ++k) {
      SimFeatureTracker::Parameters t;
      t.no_errors = h.b(); t.feature_count = 0;
      t.tracker_params.camera_id = s->GetId(); t.tracker_params.is_cam_extrinsic = p.cam_params.is_extrinsic; t.tracker_params.ekf = A; t.tracker_params.logger = log;
      t.tracker_params.min_track_length = lo; t.tracker_params.max_track_length = hi; t.tracker_params.px_error = h.u(0.5, 2); t.tracker_params.min_feat_dist = 0.3;
      trk.back().push_back(std::make_shared<SimFeatureTracker>(t, e));
      s->AddTracker(trk.back().back());
    }
    for (int k = 0; k < nm; ++k) {
      SimFiducialTracker::Parameters t;
      t.no_errors = true; t.t_vec_error = h.v3().cwiseAbs() + Vector3d(0.1, 0.1, 0.1); t.r_vec_error = h.v3().cwiseAbs() + Vector3d(0.1, 0.1, 0.1);
      auto & f = t.fiducial_params;
      f.id = 100 + static_cast<unsigned int>(10 * c + k); f.camera_id = s->GetId(); f.is_extrinsic = h.b(); f.is_cam_extrinsic = p.cam_params.is_extrinsic;
      f.pos_f_in_l = h.v3(3); f.ang_f_to_l = h.q(); f.variance = VectorXd::Constant(6, 1e-2); f.ekf = A; f.logger = log;
      fid.back().push_back(std::make_shared<SimFiducialTracker>(t, e));
      s->AddFiducial(fid.back().back());
      FidState fs = A->m_state.fid_states.at(f.id);
      B->RegisterFiducial(fs, MatrixXd(f.variance.asDiagonal()));
    }
  }
  for (EKF * f : {A.get(), B.get()}) {f->m_is_gravity_initialized = true; f->m_is_zero_acceleration = false;}
  A->m_state.body_state = gen_body(h); B->m_state.body_state = A->m_state.body_state;
  std::vector<std::vector<std::shared_ptr<SimCameraMessage>>> msgs;
  for (int c = 0; c < 2; ++c) {
    auto m = cams[c]->GenerateMessages();
    msgs.push_back(m);
    h.near("a frame for every interval of the duration", m.size(), std::floor(2.0 * rate), 0);
    std::map<unsigned int, Tracks> ref;
    for (size_t k = 0; k < m.size(); ++k) {
      h.near("frames evenly spaced", m[k]->time, k / rate, 1e-12);
      h.ok("a frame number is never used again", frames.insert(m[k]->frame_id).second);
      h.ok("frame numbers grow", static_cast<long>(m[k]->frame_id) > last_frame);
      last_frame = m[k]->frame_id;
      h.ok("frame carries its camera", m[k]->sensor_id == cams[c]->GetId());
      h.ok("a message from every tracker and every marker", m[k]->feature_track_messages.size() == trk[c].size() && m[k]->fiducial_track_messages.size() == fid[c].size());
      if (m[k]->feature_track_messages.size() != trk[c].size() || m[k]->fiducial_track_messages.size() != fid[c].size()) {return;}
      for (size_t q = 0; q < trk[c].size(); ++q) {
        auto & msg = *m[k]->feature_track_messages[q];
        auto & t = *trk[c][q];
        h.ok("tracks carry their tracker, camera and time", msg.tracker_id == t.GetID() && msg.sensor_id == cams[c]->GetId() && msg.time == m[k]->time);
        Tracks & r = ref[t.GetID()];
        for (auto & p : t.GetVisibleKeypoints(m[k]->time)) {r[static_cast<unsigned int>(p.class_id)].push_back(FeaturePoint{m[k]->frame_id, m[k]->time, p});}
        auto want = finish(r, m[k]->frame_id, lo, hi);
        std::ostringstream w;
        w << "frame " << k << " expected " << want.size() << " tracks, got " << msg.feature_tracks.size();
        h.ok("exactly the ended tracks of sufficient length are handed over", want.size() == msg.feature_tracks.size(), w.str());
        std::vector<bool> used(want.size());
        for (auto & g : msg.feature_tracks) {
          bool found = false;
          for (size_t z = 0; z < want.size() && !found; ++z) {
            if (!used[z] && same_track(want[z], g.track)) {used[z] = found = true;}
          }
          h.ok("a track is handed over whole and once", found, w.str());
          if (found) {
            auto f = e->GetFeature(g.track[0].key_point.class_id);
            h.mat("a track carries its true feature", g.true_feature_position, Vector3d(f.x, f.y, f.z), 0);
          }
        }
      }
      for (size_t q = 0; q < fid[c].size(); ++q) {
        auto & msg = *m[k]->fiducial_track_messages[q];
        h.ok("a detection carries its marker and time", msg.tracker_id == fid[c][q]->GetID() && msg.time == m[k]->time);
        if (msg.is_board_visible) {h.ok("a detection carries its frame", msg.board_detection.frame_id == m[k]->frame_id);}
      }
    }
    for (size_t q = 0; q < trk[c].size(); ++q) {h.ok("the other tracks are kept", same_tracks(ref[trk[c][q]->GetID()], trk[c][q]->m_feature_points_map));}
  }
  // both cameras' frames, interleaved in time
  for (size_t k = 0; k < msgs[0].size(); ++k) {
    for (int c = 0; c < 2; ++c) {
      if (k >= msgs[c].size()) {continue;}
      auto & m = *msgs[c][k];
      std::ostringstream w;
      w << "simulated camera " << c << " frame " << k << " track lengths " << lo << ".." << hi;
      h.ctx = w.str();
      cams[c]->Callback(m);
      B->PredictModel(B->CalculateLocalTime(m.time));
      B->AugmentStateIfNeeded(cams[c]->GetId(), m.frame_id);
      for (size_t q = 0; q < trk[c].size(); ++q) {
        auto & x = *m.feature_track_messages[q];
        if (x.feature_tracks.empty()) {continue;}
        MsckfUpdater up(cams[c]->GetId(), A->m_state.cam_states.at(cams[c]->GetId()).GetIsExtrinsic(), "", 0.0, 0.3, log);
        up.UpdateEKF(*B, m.time, x.feature_tracks, trk[c][q]->m_px_error);
      }
      for (size_t q = 0; q < fid[c].size(); ++q) {
        auto & x = *m.fiducial_track_messages[q];
        if (!x.is_board_visible) {continue;}
        unsigned int id = 100 + static_cast<unsigned int>(10 * c + q);
        FiducialUpdater up(id, cams[c]->GetId(), A->m_state.fid_states.at(id).GetIsExtrinsic(), A->m_state.cam_states.at(cams[c]->GetId()).GetIsExtrinsic(), "", 0.0, log);
        up.UpdateEKF(*B, m.time, x.board_detection);
      }
      if (!B->m_state.ToVector().allFinite() || !B->m_cov.allFinite() || B->m_state.ToVector().cwiseAbs().maxCoeff() > 1e3) {return;}
      same_filters(h, "a simulated frame is prediction, clone, one update per tracker and per marker", *A, *B);
    }
  }
}

// real cameras: pictures of moving dots, and of a board
static void pictures(H & h)
{
  auto log = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
  auto ep = params(h, false, AugmentationType::ALL);
  unsigned int hi = static_cast<unsigned int>(h.i(3, 5)), lo = static_cast<unsigned int>(h.i(2, static_cast<int>(hi)));
  auto A = std::make_shared<EKF>(ep), B = std::make_shared<EKF>(ep);
  A->SetMaxTrackLength(hi + 3); B->SetMaxTrackLength(hi + 3);
  Camera::Parameters p;
  p.is_extrinsic = h.b(); p.rate = 10; p.pos_c_in_b = h.v3(0.3); p.ang_c_to_b = h.q(); p.variance = VectorXd::Constant(6, 1e-3);
  p.intrinsics.f_x = 400; p.intrinsics.f_y = 410; p.intrinsics.width = 320; p.intrinsics.height = 240;
  p.ekf = A; p.logger = log;
  Camera cam(p);
  CamState cs = A->m_state.cam_states.at(cam.GetId());
  B->RegisterCamera(cam.GetId(), cs, MatrixXd(p.variance.asDiagonal()));
  FeatureTracker::Parameters t;
  t.camera_id = cam.GetId(); t.is_cam_extrinsic = p.is_extrinsic; t.ekf = A; t.logger = log; t.min_track_length = lo; t.max_track_length = hi; t.px_error = 1; t.min_feat_dist = 0.3;
  t.matcher = Matcher::BRUTE_FORCE; t.detector = h.b() ? Detector::FAST : Detector::ORB;
  auto ft = std::make_shared<FeatureTracker>(t);
  ft->m_msckf_updater.m_use_true_triangulation = false;
  bool with_tracker = h.b() || h.b();
  if (with_tracker) {cam.AddTracker(ft);}
  FiducialTracker::Parameters f;
  bool charuco = h.b();
  f.detector_type = charuco ? FiducialType::CHARUCO_BOARD : FiducialType::ARUCO_BOARD;
  f.squares_x = 3; f.squares_y = 3; f.square_length = charuco ? 0.2 : 0.15; f.marker_length = charuco ? 0.14 : 0.04;
  f.camera_id = cam.GetId(); f.id = 7; f.is_extrinsic = h.b(); f.is_cam_extrinsic = p.is_extrinsic; f.pos_f_in_l = h.v3(3); f.ang_f_to_l = h.q(); f.variance = h.v(6).cwiseAbs() + VectorXd::Constant(6, 1e-2);
  f.ekf = A; f.logger = log;
  auto mt = std::make_shared<FiducialTracker>(f);
  cam.AddFiducial(mt);
  FidState fs = A->m_state.fid_states.at(7);
  B->RegisterFiducial(fs, MatrixXd(f.variance.asDiagonal()));
  for (EKF * g : {A.get(), B.get()}) {g->m_is_gravity_initialized = true; g->m_is_zero_acceleration = true;}
  A->m_state.body_state = gen_body(h); B->m_state.body_state = A->m_state.body_state;
  // a picture larger than the camera sees; the camera looks at a moving window of it
  cv::Mat small(150, 200, CV_8UC1), texture, wide;
  for (int r = 0; r < small.rows; ++r) {for (int c = 0; c < small.cols; ++c) {small.at<uint8_t>(r, c) = static_cast<uint8_t>(h.i(0, 255));}}
  int cell = h.i(3, 6);
  cv::resize(small, wide, cv::Size(200 * cell, 150 * cell), 0, 0, h.b() ? cv::INTER_NEAREST : cv::INTER_LINEAR);
  int ox = h.i(40, 120), oy = h.i(40, 120);
  texture = wide(cv::Rect(ox, oy, 320, 240)).clone();
  bool board_there = h.b();
  Tracks ref;
  long last_frame = -1;
  int n = h.i(5, 9);
  double time = 10;
  for (int k = 0; k < n; ++k) {
    time += h.u(0.05, 0.2);
    std::ostringstream w;
    w << "camera picture " << k << " track lengths " << lo << ".." << hi << (charuco ? " charuco" : " aruco") << (board_there ? " board" : "");
    h.ctx = w.str();
    CameraMessage m{cv::Mat()};
    m.time = time; m.sensor_id = cam.GetId(); m.sensor_type = SensorType::Camera;
    bool empty = h.i(0, 9) == 0;
    if (!empty) {
      cv::Mat img = wide(cv::Rect(ox, oy, 320, 240)).clone();
      // something passes in front
      int hide = h.i(0, 3);
      for (int q = 0; q < hide; ++q) {cv::circle(img, cv::Point(h.i(0, 319), h.i(0, 239)), h.i(10, 60), cv::Scalar(h.i(0, 255)), -1);}
      if (h.i(0, 7) == 0) {img.setTo(0);}
      if (board_there) {
        cv::Mat b;
        if (charuco) {mt->m_board.staticCast<cv::aruco::CharucoBoard>()->draw(cv::Size(150, 150), b, 6, 1);} else {mt->m_board.staticCast<cv::aruco::GridBoard>()->draw(cv::Size(150, 150), b, 6, 1);}
        b.copyTo(img(cv::Rect(60 + h.i(0, 60), 40 + h.i(0, 40), 150, 150)));
      }
      m.image = img;
    }
    ox = std::max(0, std::min(200 * cell - 320, ox + h.i(-5, 5))); oy = std::max(0, std::min(150 * cell - 240, oy + h.i(-5, 5)));
    unsigned int prev_frame = ft->m_prev_frame_id;
    double prev_time = ft->m_prev_frame_time;
    bool prev_any = ft->m_prev_descriptors.rows > 0;
    cam.Callback(m);
    if (empty) {
      same_filters(h, "an empty picture changes nothing", *A, *B);
      continue;
    }
    B->PredictModel(B->CalculateLocalTime(time));
    bool clone = A->m_state.aug_states.count(cam.GetId()) && !A->m_state.aug_states.at(cam.GetId()).empty();
    h.ok("a frame adds a clone of its camera", clone);
    if (!clone) {return;}
    unsigned int frame = A->m_state.aug_states.at(cam.GetId()).back().frame_id;
    h.ok("frame numbers grow", static_cast<long>(frame) > last_frame);
    last_frame = frame;
    B->AugmentStateIfNeeded(cam.GetId(), frame);
    if (with_tracker) {
      h.ok("the tracker is given the frame of the clone", ft->m_prev_frame_id == frame);
      h.near("the tracker remembers when the frame was", ft->m_prev_frame_time, B->GetCurrentTime(), 0);
      if (prev_any && ft->m_prev_descriptors.rows > 0) {
        // the features of this frame that were found again are those that carry an identifier
        std::set<int> seen;
        for (auto & kp : ft->m_prev_key_points) {
          if (kp.class_id < 0) {continue;}
          h.ok("a feature is seen once in a frame", seen.insert(kp.class_id).second);
          unsigned int id = static_cast<unsigned int>(kp.class_id);
          if (!ref.count(id)) {
            auto i = ft->m_feature_points_map.find(id);
            // a feature followed for the first time starts at the frame before; one that ended at the maximum length starts again here
            if (i != ft->m_feature_points_map.end() && i->second.size() == 2) {
              FeaturePoint first = i->second[0];
              h.ok("a new track starts at the frame before", first.frame_id == prev_frame && first.frame_time == prev_time && first.key_point.class_id == kp.class_id);
              ref[id].push_back(first);
            } else if (i == ft->m_feature_points_map.end()) {
              h.ok("a new track is kept until it ends", false);
            }
          }
          ref[id].push_back(FeaturePoint{frame, B->GetCurrentTime(), kp});
        }
        FeatureTracks tracks;
        for (auto & x : finish(ref, frame, lo, hi)) {FeatureTrack y; y.track = x; tracks.push_back(y);}
        h.ok("tracks not ended are kept, the others dropped", same_tracks(ref, ft->m_feature_points_map));
        if (!tracks.empty()) {
          MsckfUpdater up(cam.GetId(), p.is_extrinsic, "", 0.0, 0.3, log);
          up.m_use_true_triangulation = false;
          up.UpdateEKF(*B, time, tracks, 1.0);
        }
      }
    }
    // the marker: OpenCV's own answer on the same picture
    {
      std::vector<int> ids, mids;
      std::vector<std::vector<cv::Point2f>> corners;
      std::vector<cv::Point2f> cc;
      auto K = B->m_state.cam_states.at(cam.GetId()).intrinsics.ToCameraMatrix(), D = B->m_state.cam_states.at(cam.GetId()).intrinsics.ToDistortionVector();
      cv::aruco::detectMarkers(m.image, mt->m_dict, corners, mids, cv::makePtr<cv::aruco::DetectorParameters>());
      cv::Vec3d r, x;
      bool valid = false;
      if (!mids.empty()) {
        if (charuco) {
          auto cb = mt->m_board.staticCast<cv::aruco::CharucoBoard>();
          cv::aruco::interpolateCornersCharuco(corners, mids, m.image, cb, cc, ids, K, D);
          valid = !ids.empty() && cv::aruco::estimatePoseCharucoBoard(cc, ids, cb, K, D, r, x);
        } else {
          valid = cv::aruco::estimatePoseBoard(corners, mids, mt->m_board, K, D, r, x) > 0;
        }
      }
      if (board_there && mids.empty()) {h.ob["(a board was drawn and not found)"]++;}
      if (valid) {
        h.ob["(a board was found)"]++;
        BoardDetection d;
        d.frame_id = frame; d.pos_f_in_c = Vector3d(x[0], x[1], x[2]); d.ang_f_to_c = qexp(Vector3d(r[0], r[1], r[2]));
        d.pos_error = f.variance.head(3); d.ang_error = f.variance.tail(3);
        FiducialUpdater up(7, cam.GetId(), f.is_extrinsic, p.is_extrinsic, "", 0.0, log);
        up.UpdateEKF(*B, time, d);
      }
    }
    if (!B->m_state.ToVector().allFinite() || !B->m_cov.allFinite() || B->m_state.ToVector().cwiseAbs().maxCoeff() > 1e3) {return;}
    same_filters(h, "a frame is prediction, clone, one update with the ended tracks, one per marker seen", *A, *B);
  }
  // without trackers and markers nothing happens
  {
    h.ctx = "camera without trackers";
    Camera::Parameters q = p;
    auto C = std::make_shared<EKF>(ep), D = std::make_shared<EKF>(ep);
    q.ekf = C;
    Camera c2(q);
    D->RegisterCamera(c2.GetId(), cs, MatrixXd(p.variance.asDiagonal()));
    CameraMessage m{texture};
    m.time = 3; m.sensor_id = c2.GetId();
    c2.Callback(m);
    same_filters(h, "a camera without trackers leaves the filter alone", *C, *D);
  }
}

void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    if (h.cases % 3 == 2) {pictures(h);} else {simulated(h);}
  }
}
