#include "ekfgen.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "sensors/imu.hpp"
#include "sensors/gps.hpp"
#include "sensors/camera.hpp"
#include "sensors/sim/sim_imu.hpp"
#include "sensors/sim/sim_gps.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "trackers/feature_tracker.hpp"
#include "trackers/fiducial_tracker.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "ekf/update/imu_updater.hpp"
#include "ekf/update/gps_updater.hpp"

static MatrixXd cov_of(EKF & e)
{return e.m_use_root_covariance ? MatrixXd(e.m_cov.transpose() * e.m_cov) : MatrixXd(e.m_cov);}

void run(H & h)
{
  auto log = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
  std::set<unsigned int> sensor_ids, tracker_ids;
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    bool root = h.b();
    auto ep = params(h, root, AugmentationType::ALL);
    auto A = std::make_shared<EKF>(ep), B = std::make_shared<EKF>(ep);
    auto e = std::make_shared<TruthEngineCyclic>(h.v3(1), h.v3(1), h.v3(2), h.v3(1), 1.0, 0.1, 0.0, 2.0, log);
    auto bound = [](const VectorXd & v) {return VectorXd(v.cwiseMax(1e-6));};
    auto fresh = [&](std::set<unsigned int> & s, unsigned int id, const char * what) {h.ok(std::string(what) + ": an identifier not used before", s.insert(id).second);};
    auto block = [&](const char * what, unsigned int at, const VectorXd & d) {
        h.mat(std::string(what) + ": covariance is that of the calibrated quantities", cov_of(*A).block(at, at, d.size(), d.size()), MatrixXd(d.asDiagonal()), 1e-9);
      };
    auto size_is = [&](const char * what, unsigned int n) {h.near(std::string(what) + ": state grows by what is calibrated", A->GetStateSize(), n, 0); h.near(std::string(what) + ": covariance grows with it", A->m_cov.rows(), n, 0);};
    // IMU
    {
      IMU::Parameters p;
      bool ex = h.b(), in = h.b();
      p.is_extrinsic = ex; p.is_intrinsic = in; p.rate = h.u(1, 400);
      p.pos_i_in_b = h.v3(); p.ang_i_to_b = h.q(); p.acc_bias = h.v3(); p.omg_bias = h.v3();
      p.pos_stability = h.u(0, 1); p.ang_stability = h.u(0, 1); p.acc_bias_stability = h.u(0, 1); p.omg_bias_stability = h.u(0, 1);
      p.variance = h.v(12).cwiseAbs2();
      if (h.b()) {p.variance(h.i(0, 11)) = 0;}
      p.ekf = A; p.logger = log;
      unsigned int n0 = A->GetStateSize();
      std::ostringstream o;
      o << "IMU extrinsic=" << ex << " intrinsic=" << in << " variance=" << p.variance.transpose();
      h.ctx = o.str();
      std::unique_ptr<IMU> s;
      std::unique_ptr<SimIMU> ss;
      bool sim = h.b();
      if (sim) {
        SimIMU::Parameters sp;
        sp.imu_params = p; sp.no_errors = true;
        ss.reset(new SimIMU(sp, e));
      } else {
        s.reset(new IMU(p));
      }
      IMU & u = sim ? *ss : *s;
      unsigned int id = u.GetId();
      fresh(sensor_ids, id, "IMU");
      h.ok("IMU: registered under its identifier", A->m_state.imu_states.size() == 1 && A->m_state.imu_states.count(id) == 1);
      if (A->m_state.imu_states.count(id)) {
        ImuState & st = A->m_state.imu_states.at(id);
        h.ok("IMU: configured flags", st.GetIsExtrinsic() == ex && st.GetIsIntrinsic() == in);
        h.mat("IMU: configured position", st.pos_i_in_b, p.pos_i_in_b, 0);
        h.quat("IMU: configured orientation", st.ang_i_to_b, p.ang_i_to_b, 0);
        h.mat("IMU: configured accelerometer bias", st.acc_bias, p.acc_bias, 0);
        h.mat("IMU: configured gyroscope bias", st.omg_bias, p.omg_bias, 0);
        h.near("IMU: configured pos stability", st.pos_stability, p.pos_stability, 0);
        h.near("IMU: configured ang stability", st.ang_stability, p.ang_stability, 0);
        h.near("IMU: configured acc bias stability", st.acc_bias_stability, p.acc_bias_stability, 0);
        h.near("IMU: configured omg bias stability", st.omg_bias_stability, p.omg_bias_stability, 0);
        unsigned int w = (ex ? 6 : 0) + (in ? 6 : 0);
        size_is("IMU", n0 + w);
        VectorXd d(w), b = bound(p.variance);
        if (ex) {d.head(6) = b.head(6);}
        if (in) {d.tail(6) = b.tail(6);}
        block("IMU", n0, d);
        if (sim) {
          h.mat("IMU: true position is the configured one", e->GetImuPosition(id), p.pos_i_in_b, 0);
          h.quat("IMU: true orientation is the configured one", e->GetImuAngularPosition(id), p.ang_i_to_b, 0);
          h.mat("IMU: true accelerometer bias is the configured one", e->GetImuAccelerometerBias(id), p.acc_bias, 0);
          h.mat("IMU: true gyroscope bias is the configured one", e->GetImuGyroscopeBias(id), p.omg_bias, 0);
        }
        // a message is the update of an updater with the configured flags
        ImuState st2 = st;
        B->RegisterIMU(id, st2, MatrixXd(d.asDiagonal()));
        ImuUpdater up(id, ex, in, "", 0.0, log);
        for (int k = 0; k < 2; ++k) {
          ImuMessage m;
          m.time = 10 + k * 0.1;
          m.sensor_id = id;
          m.acceleration = p.acc_bias + p.ang_i_to_b.inverse() * Vector3d(0, 0, 9.80665) + h.v3(k ? 3 : 1e-3); m.angular_rate = p.omg_bias + h.v3(k ? 0.5 : 1e-3);
          m.acceleration_covariance = h.diag(3); m.angular_rate_covariance = h.diag(3);
          u.Callback(m);
          up.UpdateEKF(*B, m.time, m.acceleration, m.acceleration_covariance, m.angular_rate, m.angular_rate_covariance);
          h.mat("IMU: a message is one update with its values (state)", A->m_state.ToVector(), B->m_state.ToVector(), 1e-9);
          h.mat("IMU: a message is one update with its values (covariance)", A->m_cov, B->m_cov, 1e-9);
          h.near("IMU: a message moves the filter to its time", A->GetCurrentTime(), B->GetCurrentTime(), 1e-12);
        }
      }
    }
    A = std::make_shared<EKF>(ep); B = std::make_shared<EKF>(ep);
    // GPS
    {
      GPS::Parameters p;
      bool ex = h.b();
      p.is_extrinsic = ex; p.rate = h.u(1, 20); p.pos_a_in_b = h.v3(); p.variance = h.v3().cwiseAbs2(); p.pos_stability = h.u(0, 1);
      p.ekf = A; p.logger = log;
      std::ostringstream o;
      o << "GPS extrinsic=" << ex;
      h.ctx = o.str();
      unsigned int n0 = A->GetStateSize();
      std::unique_ptr<GPS> s;
      std::unique_ptr<SimGPS> ss;
      bool sim = h.b();
      if (sim) {
        SimGPS::Parameters sp;
        sp.gps_params = p; sp.no_errors = true;
        ss.reset(new SimGPS(sp, e));
      } else {
        s.reset(new GPS(p));
      }
      GPS & u = sim ? *ss : *s;
      unsigned int id = u.GetId();
      fresh(sensor_ids, id, "GPS");
      h.ok("GPS: registered under its identifier", A->m_state.gps_states.size() == 1 && A->m_state.gps_states.count(id) == 1);
      if (A->m_state.gps_states.count(id)) {
        GpsState & st = A->m_state.gps_states.at(id);
        h.ok("GPS: configured flag", st.GetIsExtrinsic() == ex);
        h.mat("GPS: configured position", st.pos_a_in_b, p.pos_a_in_b, 0);
        h.near("GPS: configured pos stability", st.pos_stability, p.pos_stability, 0);
        size_is("GPS", n0 + (ex ? 3 : 0));
        if (ex) {block("GPS", n0, p.variance);}
        if (sim) {h.mat("GPS: true antenna is the configured one", e->GetGpsPosition(id), p.pos_a_in_b, 0);}
        GpsState st2 = st;
        B->RegisterGPS(id, st2, MatrixXd(p.variance.asDiagonal()));
        GpsUpdater up(id, ex, "", 0.0, log);
        Vector3d ref(h.u(-80, 80), h.u(-170, 170), h.u(0, 500));
        double hd = h.u(-3, 3);
        for (EKF * f : {A.get(), B.get()}) {f->SetGpsReference(ref, hd);}
        for (int k = 0; k < 2; ++k) {
          GpsMessage m;
          m.time = 10 + k * 0.1; m.sensor_id = id;
          m.gps_lla = ref + Vector3d(h.u(-1e-5, 1e-5), h.u(-1e-5, 1e-5), h.u(-1, 1));
          m.pos_covariance = h.diag(3);
          u.Callback(m);
          up.UpdateEKF(*B, m.time, m.gps_lla, m.pos_covariance);
          h.mat("GPS: a message is one update with its values (state)", A->m_state.ToVector(), B->m_state.ToVector(), 1e-9);
          h.mat("GPS: a message is one update with its values (covariance)", A->m_cov, B->m_cov, 1e-9);
        }
      }
    }
    A = std::make_shared<EKF>(ep);
    // camera with a marker and a feature tracker
    {
      Camera::Parameters p;
      bool ex = h.b(), fex = h.b(), sim = h.b();
      p.is_extrinsic = ex; p.rate = h.u(5, 40); p.pos_c_in_b = h.v3(); p.ang_c_to_b = h.q(); p.pos_stability = h.u(0, 1); p.ang_stability = h.u(0, 1);
      p.variance = h.v(6).cwiseAbs2();
      if (h.b()) {p.variance(h.i(0, 5)) = 0;}
      p.intrinsics.f_x = h.u(300, 600); p.intrinsics.f_y = h.u(300, 600); p.intrinsics.k_1 = h.u(-0.1, 0.1); p.intrinsics.p_2 = h.u(-0.1, 0.1); p.intrinsics.width = h.i(300, 700); p.intrinsics.height = h.i(300, 700);
      p.ekf = A; p.logger = log;
      std::ostringstream o;
      o << "camera extrinsic=" << ex << " marker extrinsic=" << fex << " variance=" << p.variance.transpose();
      h.ctx = o.str();
      unsigned int n0 = A->GetStateSize();
      std::unique_ptr<Camera> s;
      std::unique_ptr<SimCamera> ss;
      if (sim) {
        SimCamera::Parameters sp;
        sp.cam_params = p; sp.no_errors = true;
        ss.reset(new SimCamera(sp, e));
      } else {
        s.reset(new Camera(p));
      }
      Camera & u = sim ? *ss : *s;
      unsigned int id = u.GetId();
      fresh(sensor_ids, id, "camera");
      h.ok("camera: registered under its identifier", A->m_state.cam_states.size() == 1 && A->m_state.cam_states.count(id) == 1);
      if (A->m_state.cam_states.count(id)) {
        CamState & st = A->m_state.cam_states.at(id);
        h.ok("camera: configured flag", st.GetIsExtrinsic() == ex);
        h.mat("camera: configured position", st.pos_c_in_b, p.pos_c_in_b, 0);
        h.quat("camera: configured orientation", st.ang_c_to_b, p.ang_c_to_b, 0);
        h.near("camera: configured pos stability", st.pos_stability, p.pos_stability, 0);
        h.near("camera: configured ang stability", st.ang_stability, p.ang_stability, 0);
        h.near("camera: configured rate", st.rate, p.rate, 0);
        h.ok("camera: configured intrinsics", st.intrinsics.f_x == p.intrinsics.f_x && st.intrinsics.f_y == p.intrinsics.f_y && st.intrinsics.k_1 == p.intrinsics.k_1 &&
          st.intrinsics.p_2 == p.intrinsics.p_2 && st.intrinsics.width == p.intrinsics.width && st.intrinsics.height == p.intrinsics.height);
        size_is("camera", n0 + (ex ? 6 : 0));
        if (ex) {block("camera", n0, bound(p.variance));}
        if (sim) {
          h.mat("camera: true position is the configured one", e->GetCameraPosition(id), p.pos_c_in_b, 0);
          h.quat("camera: true orientation is the configured one", e->GetCameraAngularPosition(id), p.ang_c_to_b, 0);
          h.near("camera: true intrinsics are the configured ones", e->GetCameraIntrinsics(id).f_x, p.intrinsics.f_x, 0);
        }
      }
      unsigned int n1 = A->GetStateSize();
      FiducialTracker::Parameters f;
      f.detector_type = FiducialType::ARUCO_BOARD;
      f.squares_x = 2; f.squares_y = 2; f.square_length = 1; f.marker_length = 0.5;
      f.camera_id = id; f.id = static_cast<unsigned int>(h.i(1, 90)); f.is_extrinsic = fex; f.is_cam_extrinsic = ex;
      f.pos_f_in_l = h.v3(); f.ang_f_to_l = h.q(); f.variance = h.v(6).cwiseAbs2() + VectorXd::Constant(6, 1e-3);
      f.ekf = A; f.logger = log;
      std::unique_ptr<FiducialTracker> ft;
      if (sim) {
        SimFiducialTracker::Parameters sp;
        sp.fiducial_params = f; sp.no_errors = true;
        auto t = std::unique_ptr<SimFiducialTracker>(new SimFiducialTracker(sp, e));
        fresh(tracker_ids, t->GetID(), "tracker");
        h.mat("marker: true position is the configured one", e->GetBoardPosition(t->GetID()), f.pos_f_in_l, 0);
        h.quat("marker: true orientation is the configured one", e->GetBoardOrientation(t->GetID()), f.ang_f_to_l, 0);
      } else {
        ft.reset(new FiducialTracker(f));
        fresh(tracker_ids, ft->GetID(), "tracker");
      }
      h.ok("marker: registered under its identifier", A->m_state.fid_states.size() == 1 && A->m_state.fid_states.count(f.id) == 1);
      if (A->m_state.fid_states.count(f.id)) {
        FidState & st = A->m_state.fid_states.at(f.id);
        h.ok("marker: configured flag", st.GetIsExtrinsic() == fex);
        h.mat("marker: configured position", st.pos_f_in_l, f.pos_f_in_l, 0);
        h.quat("marker: configured orientation", st.ang_f_to_l, f.ang_f_to_l, 0);
        size_is("marker", n1 + (fex ? 6 : 0));
        if (fex) {block("marker", n1, f.variance);}
      }
      unsigned int n2 = A->GetStateSize();
      FeatureTracker::Parameters t;
      t.camera_id = id; t.is_cam_extrinsic = ex; t.ekf = A; t.logger = log;
      if (sim) {
        SimFeatureTracker::Parameters sp;
        sp.tracker_params = t; sp.no_errors = true;
        SimFeatureTracker x(sp, e);
        fresh(tracker_ids, x.GetID(), "tracker");
      } else {
        FeatureTracker x(t);
        fresh(tracker_ids, x.GetID(), "tracker");
      }
      size_is("feature tracker", n2);
    }
    // the truth engine reports the last value set, and setting one sensor's leaves the others
    {
      h.ctx = "truth engine";
      unsigned int i = static_cast<unsigned int>(h.i(1, 4)), j = static_cast<unsigned int>(h.i(5, 9));
      Vector3d a = h.v3(), b = h.v3(), c = h.v3();
      Quaterniond q = h.q(), r = h.q(), w = h.q();
      e->SetImuPosition(j, b); e->SetImuPosition(i, a); e->SetImuPosition(i, c);
      h.mat("the value set is the one reported (IMU position)", e->GetImuPosition(i), c, 0);
      h.mat("another identifier's is kept (IMU position)", e->GetImuPosition(j), b, 0);
      e->SetImuAngularPosition(j, q); e->SetImuAngularPosition(i, r); e->SetCameraAngularPosition(j, w); e->SetCameraAngularPosition(i, q); e->SetBoardOrientation(j, r); e->SetBoardOrientation(i, w);
      h.quat("the value set is the one reported (IMU orientation)", e->GetImuAngularPosition(i), r, 0);
      h.quat("another identifier's is kept (IMU orientation)", e->GetImuAngularPosition(j), q, 0);
      h.quat("the value set is the one reported (camera orientation)", e->GetCameraAngularPosition(i), q, 0);
      h.quat("another identifier's is kept (camera orientation)", e->GetCameraAngularPosition(j), w, 0);
      h.quat("the value set is the one reported (board orientation)", e->GetBoardOrientation(i), w, 0);
      h.quat("another identifier's is kept (board orientation)", e->GetBoardOrientation(j), r, 0);
      e->SetImuAccelerometerBias(j, a); e->SetImuAccelerometerBias(i, b); e->SetImuGyroscopeBias(j, b); e->SetImuGyroscopeBias(i, c);
      h.mat("the value set is the one reported (accelerometer bias)", e->GetImuAccelerometerBias(i), b, 0);
      h.mat("another identifier's is kept (accelerometer bias)", e->GetImuAccelerometerBias(j), a, 0);
      h.mat("the value set is the one reported (gyroscope bias)", e->GetImuGyroscopeBias(i), c, 0);
      h.mat("another identifier's is kept (gyroscope bias)", e->GetImuGyroscopeBias(j), b, 0);
      e->SetCameraPosition(j, c); e->SetCameraPosition(i, a); e->SetGpsPosition(j, a); e->SetGpsPosition(i, b); e->SetBoardPosition(j, b); e->SetBoardPosition(i, c);
      h.mat("the value set is the one reported (camera position)", e->GetCameraPosition(i), a, 0);
      h.mat("another identifier's is kept (camera position)", e->GetCameraPosition(j), c, 0);
      h.mat("the value set is the one reported (antenna)", e->GetGpsPosition(i), b, 0);
      h.mat("another identifier's is kept (antenna)", e->GetGpsPosition(j), a, 0);
      h.mat("the value set is the one reported (board position)", e->GetBoardPosition(i), c, 0);
      h.mat("another identifier's is kept (board position)", e->GetBoardPosition(j), b, 0);
    }
  }
}
