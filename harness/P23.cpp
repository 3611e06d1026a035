#include "geo.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "infrastructure/debug_logger.hpp"
#include "sensors/sim/sim_imu.hpp"
#include "sensors/sim/sim_gps.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "utility/gps_helper.hpp"

void run(H & h)
{
  auto log = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    Vector3d pf(h.u(0, 2), h.u(0, 2), h.u(0, 2)), af(h.u(0, 2), h.u(0, 2), h.u(0, 2));
    double T = h.i(1, 16) / 8.0;
    auto e = std::make_shared<TruthEngineCyclic>(pf, af, h.v3(2), h.v3(1), h.u(0.1, 3), h.u(0.1, 1), h.b() ? h.u(0, 1) : 0, T, log);
    EKF::Parameters ep;
    ep.debug_logger = log;
    auto ekf = std::make_shared<EKF>(ep);
    std::ostringstream o;
    o.precision(12);
    auto times = [&](const char * what, size_t n, double rate, const std::function<double(size_t)> & at) {
        h.near(std::string(what) + ": as many as fit into the duration", n, std::floor(T * rate), 0);
        for (size_t k = 0; k < n; ++k) {h.near(std::string(what) + ": evenly spaced from zero", at(k), k / rate, 1e-12);}
      };
    // IMU
    {
      SimIMU::Parameters p;
      p.imu_params.rate = h.i(1, 80) / 4.0;
      p.imu_params.ekf = ekf;
      p.imu_params.logger = log;
      p.imu_params.pos_i_in_b = h.v3(2);
      p.imu_params.ang_i_to_b = h.q();
      p.imu_params.acc_bias = h.v3(1);
      p.imu_params.omg_bias = h.v3(1);
      p.acc_error = h.v3(0.5);
      p.omg_error = h.v3(0.5);
      p.no_errors = true;
      SimIMU s(p, e);
      h.mat("true IMU position is the configured one", e->GetImuPosition(s.GetId()), p.imu_params.pos_i_in_b, 0);
      h.quat("true IMU orientation is the configured one", e->GetImuAngularPosition(s.GetId()), p.imu_params.ang_i_to_b, 0);
      auto m = s.GenerateMessages();
      times("IMU", m.size(), p.imu_params.rate, [&](size_t k) {return m[k]->time;});
      for (auto & x : m) {
        double t = x->time;
        Matrix3d B = e->GetBodyAngularPosition(t).toRotationMatrix(), I = p.imu_params.ang_i_to_b.toRotationMatrix();
        Vector3d w = e->GetBodyAngularRate(t), dw = e->GetBodyAngularAcceleration(t), l = p.imu_params.pos_i_in_b;
        Vector3d f = B.transpose() * (e->GetBodyAcceleration(t) + Vector3d(0, 0, 9.80665)) + dw.cross(l) + w.cross(w.cross(l));
        o.str("");
        o << "IMU at t=" << t << " lever=" << l.transpose();
        h.ctx = o.str();
        h.mat("IMU specific force at the sensor", x->acceleration, I.transpose() * f, 1e-9);
        h.mat("IMU angular rate at the sensor", x->angular_rate, I.transpose() * w, 1e-9);
        h.mat("IMU acceleration covariance", x->acceleration_covariance, MatrixXd(p.acc_error.cwiseAbs2().asDiagonal()), 1e-12);
        h.mat("IMU rate covariance", x->angular_rate_covariance, MatrixXd(p.omg_error.cwiseAbs2().asDiagonal()), 1e-12);
        h.ok("IMU identifier", x->sensor_id == s.GetId());
      }
    }
    // GPS
    {
      SimGPS::Parameters p;
      p.gps_params.rate = h.i(1, 80) / 4.0;
      p.gps_params.ekf = ekf;
      p.gps_params.logger = log;
      p.gps_params.pos_a_in_b = h.v3(2);
      p.lla_error = h.v3(3);
      p.no_errors = true;
      Vector3d ref(h.u(-80, 80), h.u(-179, 179), h.u(-100, 2000));
      double hd = h.u(-3, 3);
      e->SetLocalPosition(ref);
      e->SetLocalHeading(hd);
      SimGPS s(p, e);
      h.mat("true antenna position is the configured one", e->GetGpsPosition(s.GetId()), p.gps_params.pos_a_in_b, 0);
      auto m = s.GenerateMessages();
      times("GPS", m.size(), p.gps_params.rate, [&](size_t k) {return m[k]->time;});
      for (auto & x : m) {
        double t = x->time;
        Vector3d a = e->GetBodyPosition(t) + e->GetBodyAngularPosition(t).toRotationMatrix() * p.gps_params.pos_a_in_b;
        o.str("");
        o << "GPS at t=" << t << " reference=" << ref.transpose() << " heading=" << hd;
        h.ctx = o.str();
        h.near("GPS fix is the antenna's place on Earth", (geo::ecef(x->gps_lla) - geo::from_enu(geo::to_enu(a, hd), ref)).norm(), 0, 1e-4);
        h.mat("GPS covariance", x->pos_covariance, MatrixXd(p.lla_error.cwiseAbs2().asDiagonal()), 1e-12);
        h.ok("GPS identifier", x->sensor_id == s.GetId());
      }
    }
    // markers and features
    unsigned int cam = h.i(1, 5);
    Vector3d pc = h.v3(1);
    Quaterniond qc = h.q();
    e->SetCameraPosition(cam, pc);
    e->SetCameraAngularPosition(cam, qc);
    Intrinsics K;
    K.f_x = h.u(200, 600); K.f_y = h.u(200, 600);
    K.width = h.i(200, 900); K.height = h.i(200, 900);
    K.pixel_size = 1;
    e->SetCameraIntrinsics(cam, K);
    double t = h.u(0, T);
    Matrix3d B = e->GetBodyAngularPosition(t).toRotationMatrix(), C = qc.toRotationMatrix();
    Vector3d pb = e->GetBodyPosition(t);
    {
      SimFiducialTracker::Parameters p;
      p.no_errors = true;
      p.fiducial_params.ekf = ekf;
      p.fiducial_params.logger = log;
      p.fiducial_params.pos_f_in_l = h.v3(5);
      p.fiducial_params.ang_f_to_l = h.q();
      p.t_vec_error = h.v3(1);
      p.r_vec_error = h.v3(1);
      SimFiducialTracker s(p, e);
      s.m_camera_id = cam;
      unsigned int fr = h.i(0, 1000);
      auto m = s.GenerateMessage(t, fr);
      h.ctx = "marker";
      h.ok("marker identifiers, time", m->tracker_id == s.GetID() && m->sensor_id == cam && m->time == t);
      if (m->is_board_visible) {
        auto & d = m->board_detection;
        h.ok("marker frame", static_cast<unsigned int>(d.frame_id) == fr);
        h.mat("marker position in the camera", d.pos_f_in_c, C.transpose() * (B.transpose() * (p.fiducial_params.pos_f_in_l - pb) - pc), 1e-9);
        h.mat("marker orientation in the camera", d.ang_f_to_c.toRotationMatrix(), C.transpose() * B.transpose() * p.fiducial_params.ang_f_to_l.toRotationMatrix(), 1e-9);
        h.mat("marker position error", d.pos_error, p.t_vec_error, 0);
        h.mat("marker orientation error", d.ang_error, p.r_vec_error, 0);
      }
    }
    {
      SimFeatureTracker::Parameters p;
      p.no_errors = true;
      p.feature_count = 0;
      p.tracker_params.ekf = ekf;
      p.tracker_params.logger = log;
      SimFeatureTracker s(p, e);
      s.m_camera_id = cam;
      auto key = s.GetVisibleKeypoints(t);
      auto pts = e->GetFeatures();
      std::map<int, cv::KeyPoint> got;
      for (auto & k : key) {h.ok("no feature appears twice", got.emplace(k.class_id, k).second);}
      o.str("");
      o << "features at t=" << t << " image " << K.width << "x" << K.height;
      for (size_t j = 0; j < pts.size(); ++j) {
        Vector3d x = C.transpose() * (B.transpose() * (Vector3d(pts[j].x, pts[j].y, pts[j].z) - pb) - pc);
        if (std::abs(x(2)) < 1e-6) {continue;}
        auto c = K.ToCameraMatrix();
        double u = c.at<double>(0, 0) * x(0) / x(2) + c.at<double>(0, 2);
        double v = c.at<double>(1, 1) * x(1) / x(2) + c.at<double>(1, 2);
        double edge = std::min(std::min(u, v), std::min(K.width - u, K.height - v));
        if (std::abs(edge) < 1e-3) {continue;}
        bool vis = x(2) > 0 && edge > 0;
        o.str("");
        o << "feature " << j << " in camera " << x.transpose() << " pixel " << u << "," << v << " image " << K.width << "x" << K.height;
        h.ctx = o.str();
        h.ok("exactly the visible features are seen", got.count(j) == vis);
        if (vis && got.count(j)) {
          h.near("at their image position", got[j].pt.x, u, 1e-5);
          h.near("at their image position", got[j].pt.y, v, 1e-5);
        }
      }
    }
  }
}
