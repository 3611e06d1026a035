#include "geo.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "infrastructure/debug_logger.hpp"
#include "sensors/sim/sim_imu.hpp"
#include "sensors/sim/sim_gps.hpp"
#include "sensors/sim/sim_camera.hpp"
#include "trackers/sim/sim_fiducial_tracker.hpp"
#include "trackers/sim/sim_feature_tracker.hpp"
#include "utility/sim/sim_rng.hpp"

// rows of numbers that should be independent standard normal draws (or uniform ones brought to mean 0, variance 1)
struct Stat
{
  bool uniform{false};
  std::vector<VectorXd> rows;
};
static std::map<std::string, Stat> st;

static void put(H & h, const std::string & w, const VectorXd & z)
{
  h.ok(w + ": within seven deviations", z.allFinite() && z.cwiseAbs().maxCoeff() < 7);
  st[w].rows.push_back(z.allFinite() ? z : VectorXd::Zero(z.size()));
}
static void uni(H & h, const std::string & w, double x)          // x should be uniform in [0,1)
{
  h.ok(w + ": within its bounds", x >= -1e-9 && x < 1 + 1e-9);
  st[w].uniform = true;
  st[w].rows.push_back(VectorXd::Constant(1, (x - 0.5) * std::sqrt(12.0)));
}
static VectorXd cat(const std::vector<Vector3d> & v)
{
  VectorXd r(3 * v.size());
  for (size_t k = 0; k < v.size(); ++k) {r.segment<3>(3 * k) = v[k];}
  return r;
}
static Vector3d quo(const Vector3d & a, const Vector3d & b) {return a.cwiseQuotient(b);}

static void judge(H & h)
{
  for (auto & e : st) {
    auto & r = e.second.rows;
    double n = static_cast<double>(r.size());
    if (n < 60) {continue;}
    h.ctx = e.first + " over " + std::to_string(r.size()) + " draws";
    auto stat = [&](const char * what, double got, double want, double sd) {
        std::ostringstream w;
        w << "got " << got << " expected " << want << " +- " << sd;
        h.ok(e.first + ": " + what, std::abs(got - want) < 6.5 * sd + 0.3 / n, w.str());
      };
    for (int a = 0; a < r[0].size(); ++a) {
      double m = 0, v = 0, in = 0, lag = 0;
      bool rep = false;
      for (size_t k = 0; k < r.size(); ++k) {
        double x = r[k](a);
        m += x; v += x * x; in += std::abs(x) < 1;
        if (k) {lag += x * r[k - 1](a); rep |= x == r[k - 1](a);}
      }
      stat("right on average", m / n, 0, 1 / std::sqrt(n));
      stat("of the configured deviation", v / n, 1, std::sqrt((e.second.uniform ? 0.8 : 2) / n) * (1 + 3 / std::sqrt(n)));
      stat("of the right distribution", in / n, e.second.uniform ? 1 / std::sqrt(3.0) : 0.682689492, 0.5 / std::sqrt(n));
      stat("independent from one to the next", lag / n, 0, 1 / std::sqrt(n));
      h.ok(e.first + ": new every time", !rep);
      for (int b = 0; b < a; ++b) {
        double c = 0, l1 = 0;
        for (size_t k = 0; k < r.size(); ++k) {
          c += r[k](a) * r[k](b);
          if (k) {l1 += r[k](a) * r[k - 1](b);}
        }
        stat("independent between its components", c / n, 0, 1 / std::sqrt(n));
        stat("independent from one to the next", l1 / n, 0, 1 / std::sqrt(n));
      }
    }
  }
}

static Vector3d dev(H & h, double lo, double hi) {return Vector3d(h.lg(lo, hi), h.lg(lo, hi), h.lg(lo, hi));}

template<class F>
static void times(H & h, const std::string & w, size_t n, double T, double rate, double err, F at)
{
  h.near(w + ": as many as fit into the duration", n, std::floor(T * rate), 0);
  if (n < 20) {return;}
  double s = 0;
  for (size_t k = 0; k < n; ++k) {s += at(k) - k / rate;}
  s /= n;                                                        // the start, to err / sqrt(n)
  double slack = 7 * err / std::sqrt(n);
  h.ok(w + ": starts within one period", s > -slack && s < 1 / rate + slack, "start " + std::to_string(s) + " rate " + std::to_string(rate));
  if (slack * rate < 0.02) {uni(h, w + " start", std::min(std::max(s * rate, 0.0), 1.0));}
  for (size_t k = 0; k < n; ++k) {
    if (n > 400) {put(h, w + " time error", VectorXd::Constant(1, (at(k) - k / rate - s) / err / std::sqrt(1 - 1.0 / n)));}
    else {h.ok(w + ": evenly spaced up to its error", std::abs(at(k) - k / rate - s) < 8 * err);}
  }
}

void run(H & h)
{
  auto log = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    unsigned int seed = static_cast<unsigned int>(h.next());
    SimRNG::SetSeed(seed);
    h.ctx = "generator seed " + std::to_string(seed);
    {
      double m = h.u(-5, 5), d = h.lg(1e-3, 10), lo = h.u(-5, 5), hi = lo + h.lg(1e-2, 10);
      Vector3d mv = h.v3(5), dv = dev(h, 1e-3, 10), dq = dev(h, 1e-3, 0.25);
      Quaterniond q = h.q();
      auto seq = [&](bool rec) {
          std::vector<double> o;
          for (int k = 0; k < 40; ++k) {
            double a = SimRNG::NormRand(m, d), b = SimRNG::UniRand(lo, hi);
            Vector3d c = SimRNG::VecNormRand(mv, dv);
            Quaterniond e = SimRNG::QuatNormRand(q, dq);
            if (rec) {
              put(h, "normal number", VectorXd::Constant(1, (a - m) / d));
              uni(h, "uniform number", (b - lo) / (hi - lo));
              h.ok("uniform number: within its bounds", b >= lo && b <= hi);
              put(h, "normal vector", quo(c - mv, dv));
              put(h, "random orientation", quo(qlog(qprod(e, q.conjugate())), dq));
            }
            for (double x : {a, b, c(0), c(1), c(2), e.w(), e.x(), e.y(), e.z()}) {o.push_back(x);}
          }
          return o;
        };
      auto x = seq(true);
      SimRNG::SetSeed(seed);
      h.ok("the same seed gives the same sequence", x == seq(false));
      SimRNG::SetSeed(seed + 1);
      h.ok("another seed gives another sequence", x != seq(false));
    }
    double T = h.i(8, 24) / 8.0;
    auto e = std::make_shared<TruthEngineCyclic>(Vector3d(h.u(0, 2), h.u(0, 2), h.u(0, 2)), Vector3d(h.u(0, 2), h.u(0, 2), h.u(0, 2)),
        h.v3(2), h.v3(1), h.u(0.1, 3), h.u(0.1, 1), h.b() ? h.u(0, 1) : 0, T, log);
    EKF::Parameters ep;
    ep.debug_logger = log;
    auto ekf = std::make_shared<EKF>(ep);
    SimRNG::SetSeed(static_cast<unsigned int>(h.next()));
    double terr = h.lg(1e-5, 1e-3);
    // IMU
    {
      SimIMU::Parameters p;
      p.imu_params.rate = h.i(0, 3) ? h.i(40, 400) / 2.0 : 450;
      p.imu_params.ekf = ekf;
      p.imu_params.logger = log;
      p.imu_params.pos_i_in_b = h.v3(2);
      p.imu_params.ang_i_to_b = h.q();
      p.imu_params.acc_bias = h.v3(1);
      p.imu_params.omg_bias = h.v3(1);
      p.acc_error = dev(h, 1e-2, 1);
      p.omg_error = dev(h, 1e-2, 1);
      p.pos_error = dev(h, 1e-3, 1);
      p.ang_error = dev(h, 1e-3, 0.25);
      p.acc_bias_error = dev(h, 1e-3, 1);
      p.omg_bias_error = dev(h, 1e-3, 1);
      p.time_error = terr;
      p.no_errors = false;
      std::unique_ptr<SimIMU> s;
      h.ctx = "IMU";
      for (int k = 0; k < 6; ++k) {
        s.reset(new SimIMU(p, e));
        unsigned int id = s->GetId();
        put(h, "true IMU mounting and biases", cat({quo(e->GetImuPosition(id) - p.imu_params.pos_i_in_b, p.pos_error),
            quo(qlog(qprod(e->GetImuAngularPosition(id), p.imu_params.ang_i_to_b.conjugate())), p.ang_error),
            quo(e->GetImuAccelerometerBias(id) - p.imu_params.acc_bias, p.acc_bias_error), quo(e->GetImuGyroscopeBias(id) - p.imu_params.omg_bias, p.omg_bias_error)}));
      }
      unsigned int id = s->GetId();
      auto m = s->GenerateMessages();
      times(h, "IMU", m.size(), T, p.imu_params.rate, terr, [&](size_t k) {return m[k]->time;});
      Matrix3d I = e->GetImuAngularPosition(id).toRotationMatrix();
      Vector3d l = e->GetImuPosition(id);
      for (auto & x : m) {
        double t = x->time;
        Matrix3d B = e->GetBodyAngularPosition(t).toRotationMatrix();
        Vector3d w = e->GetBodyAngularRate(t), dw = e->GetBodyAngularAcceleration(t);
        Vector3d f = B.transpose() * (e->GetBodyAcceleration(t) + Vector3d(0, 0, 9.80665)) + dw.cross(l) + w.cross(w.cross(l));
        put(h, "IMU noise", cat({quo(x->acceleration - I.transpose() * f - e->GetImuAccelerometerBias(id), p.acc_error),
            quo(x->angular_rate - I.transpose() * w - e->GetImuGyroscopeBias(id), p.omg_error)}));
        h.mat("IMU acceleration covariance is the noise's", x->acceleration_covariance, MatrixXd(p.acc_error.cwiseAbs2().asDiagonal()), 1e-12);
        h.mat("IMU rate covariance is the noise's", x->angular_rate_covariance, MatrixXd(p.omg_error.cwiseAbs2().asDiagonal()), 1e-12);
      }
    }
    // GPS
    {
      SimGPS::Parameters p;
      p.gps_params.rate = h.i(0, 3) ? h.i(40, 400) / 2.0 : 450;
      p.gps_params.ekf = ekf;
      p.gps_params.logger = log;
      p.gps_params.pos_a_in_b = h.v3(2);
      p.lla_error = dev(h, 0.3, 5);
      p.pos_a_in_b_err = dev(h, 1e-3, 1);
      p.time_error = terr;
      p.no_errors = false;
      Vector3d ref(h.u(-80, 80), h.u(-170, 170), h.u(-100, 2000));
      double hd = h.u(-3, 3);
      e->SetLocalPosition(ref);
      e->SetLocalHeading(hd);
      std::unique_ptr<SimGPS> s;
      h.ctx = "GPS";
      for (int k = 0; k < 6; ++k) {
        s.reset(new SimGPS(p, e));
        put(h, "true antenna position", quo(e->GetGpsPosition(s->GetId()) - p.gps_params.pos_a_in_b, p.pos_a_in_b_err));
      }
      auto m = s->GenerateMessages();
      times(h, "GPS", m.size(), T, p.gps_params.rate, terr, [&](size_t k) {return m[k]->time;});
      for (auto & x : m) {
        double t = x->time;
        Vector3d a = e->GetBodyPosition(t) + e->GetBodyAngularPosition(t).toRotationMatrix() * e->GetGpsPosition(s->GetId());
        put(h, "GPS noise", quo(geo::to_local(geo::enu(geo::ecef(x->gps_lla), ref), hd) - a, p.lla_error));
        h.mat("GPS covariance is the noise's", x->pos_covariance, MatrixXd(p.lla_error.cwiseAbs2().asDiagonal()), 1e-12);
      }
    }
    // cameras, markers and features
    unsigned int cam = 0;
    {
      SimCamera::Parameters p;
      p.cam_params.rate = h.i(0, 3) ? h.i(40, 400) / 2.0 : 450;
      p.cam_params.ekf = ekf;
      p.cam_params.logger = log;
      p.cam_params.pos_c_in_b = h.v3(1);
      p.cam_params.ang_c_to_b = h.q();
      p.pos_error = dev(h, 1e-3, 1);
      p.ang_error = dev(h, 1e-3, 0.25);
      p.time_error = terr;
      p.no_errors = false;
      auto & K = p.cam_params.intrinsics;
      K.f_x = h.u(200, 600); K.f_y = h.u(200, 600);
      K.width = h.i(200, 900); K.height = h.i(200, 900);
      K.pixel_size = 1;
      std::unique_ptr<SimCamera> s;
      h.ctx = "camera";
      for (int k = 0; k < 6; ++k) {
        s.reset(new SimCamera(p, e));
        cam = s->GetId();
        put(h, "true camera mounting", cat({quo(e->GetCameraPosition(cam) - p.cam_params.pos_c_in_b, p.pos_error),
            quo(qlog(qprod(e->GetCameraAngularPosition(cam), p.cam_params.ang_c_to_b.conjugate())), p.ang_error)}));
      }
      auto m = s->GenerateMessages();
      times(h, "camera", m.size(), T, p.cam_params.rate, terr, [&](size_t k) {return m[k]->time;});
    }
    {
      SimFiducialTracker::Parameters p;
      p.no_errors = false;
      p.fiducial_params.ekf = ekf;
      p.fiducial_params.logger = log;
      p.fiducial_params.pos_f_in_l = h.v3(5);
      p.fiducial_params.ang_f_to_l = h.q();
      p.pos_error = dev(h, 1e-3, 1);
      p.ang_error = dev(h, 1e-3, 0.25);
      p.t_vec_error = dev(h, 1e-3, 1);
      p.r_vec_error = dev(h, 1e-3, 0.25);
      std::unique_ptr<SimFiducialTracker> s;
      h.ctx = "marker";
      for (int k = 0; k < 6; ++k) {
        s.reset(new SimFiducialTracker(p, e));
        put(h, "true marker pose", cat({quo(e->GetBoardPosition(s->GetID()) - p.fiducial_params.pos_f_in_l, p.pos_error),
            quo(qlog(qprod(e->GetBoardOrientation(s->GetID()), p.fiducial_params.ang_f_to_l.conjugate())), p.ang_error)}));
      }
      s->m_camera_id = cam;
      Quaterniond qc = e->GetCameraAngularPosition(cam);
      for (int k = 0; k < 60; ++k) {
        double t = h.u(0, T);
        auto m = s->GenerateMessage(t, k);
        if (!m->is_board_visible) {continue;}
        auto & d = m->board_detection;
        Quaterniond qb = e->GetBodyAngularPosition(t);
        Vector3d x = qc.conjugate() * (qb.conjugate() * (e->GetBoardPosition(s->GetID()) - e->GetBodyPosition(t)) - e->GetCameraPosition(cam));
        Quaterniond q = qprod(qprod(qc.conjugate(), qb.conjugate()), e->GetBoardOrientation(s->GetID()));
        put(h, "marker noise", cat({quo(d.pos_f_in_c - x, p.t_vec_error), quo(qlog(qprod(d.ang_f_to_c, q.conjugate())), p.r_vec_error)}));
        h.mat("reported marker position error is the noise's", d.pos_error, p.t_vec_error, 0);
        h.mat("reported marker orientation error is the noise's", d.ang_error, p.r_vec_error, 0);
      }
    }
    {
      SimFeatureTracker::Parameters p;
      p.no_errors = false;
      p.feature_count = 0;
      p.tracker_params.ekf = ekf;
      p.tracker_params.logger = log;
      SimFeatureTracker s(p, e);
      s.m_camera_id = cam;
      Intrinsics K = e->GetCameraIntrinsics(cam);
      Matrix3d C = e->GetCameraAngularPosition(cam).toRotationMatrix();
      auto pts = e->GetFeatures();
      for (int k = 0; k < 5; ++k) {
        double t = h.u(0, T);
        Matrix3d B = e->GetBodyAngularPosition(t).toRotationMatrix();
        auto c = K.ToCameraMatrix();
        for (auto & g : s.GetVisibleKeypoints(t)) {
          auto & f = pts.at(g.class_id);
          Vector3d x = C.transpose() * (B.transpose() * (Vector3d(f.x, f.y, f.z) - e->GetBodyPosition(t)) - e->GetCameraPosition(cam));
          double u = c.at<double>(0, 0) * x(0) / x(2) + c.at<double>(0, 2), v = c.at<double>(1, 1) * x(1) / x(2) + c.at<double>(1, 2);
          h.ctx = "feature";
          h.ok("feature image points are whole pixels", g.pt.x == std::floor(g.pt.x) && g.pt.y == std::floor(g.pt.y));
          h.ok("feature image points are rounded to the nearest pixel", std::abs(g.pt.x - u) < 0.501 && std::abs(g.pt.y - v) < 0.501);
        }
      }
    }
  }
  judge(h);
}
