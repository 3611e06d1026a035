#include "ekfgen.hpp"

void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    bool root = h.b();
    auto e = gen_ekf(h, root, h.b() ? AugmentationType::ALL : AugmentationType::NONE, h.i(0, 5), h.i(0, 3));
    bool g = h.i(0, 3), z = h.b();
    if (g) {e->InitializeGravity();}
    e->SetZeroAcceleration(z);
    double t0 = h.u(0, 5), t = h.i(0, 3) ? t0 + (h.i(0, 3) ? h.u(0, 0.5) : h.lg(1e-9, 5)) : (h.b() ? t0 - (h.b() ? h.u(1e-6, 2) : h.lg(1e-9, 1)) : t0);
    e->m_current_time = t0;
    State S = e->m_state;
    MatrixXd C = e->m_cov;
    std::ostringstream o;
    o << (root ? "root " : "cov ") << (g ? "gravity " : "") << (z ? "stationary " : "") << "t0=" << t0 << " t=" << t << " " << show(S);
    h.ctx = o.str();
    e->PredictModel(t);
    const BodyState & a = S.body_state; const BodyState & b = e->m_state.body_state;
    if (t < t0) {
      h.ok("a time in the past leaves the clock alone", e->m_current_time == t0);
      h.mat("a time in the past leaves the covariance alone", e->m_cov, C, 0);
      h.mat("a time in the past leaves the position alone", b.pos_b_in_l, a.pos_b_in_l, 0);
      h.mat("a time in the past leaves the velocity alone", b.vel_b_in_l, a.vel_b_in_l, 0);
      h.quat("a time in the past leaves the orientation alone", b.ang_b_to_l, a.ang_b_to_l, 0);
      continue;
    }
    h.ok("the filter's time is the requested one", e->m_current_time == t && e->GetCurrentTime() == t);
    double dt = g ? t - t0 : 0;
    Vector3d acc = z ? Vector3d(0, 0, 0) : Vector3d(a.acc_b_in_l - Vector3d(0, 0, 9.80665));
    Vector3d v = a.vel_b_in_l + dt * acc;
    h.mat("velocity", b.vel_b_in_l, v, 1e-12);
    h.mat("position", b.pos_b_in_l, a.pos_b_in_l + dt * v, 1e-12);
    h.quat("orientation", b.ang_b_to_l, qprod(qexp(a.ang_vel_b_in_l * dt), a.ang_b_to_l), 1e-9);
    h.near("orientation is a unit quaternion", b.ang_b_to_l.norm(), 1, 1e-9);
    h.mat("acceleration is kept", b.acc_b_in_l, a.acc_b_in_l, 0);
    h.mat("angular velocity is kept", b.ang_vel_b_in_l, a.ang_vel_b_in_l, 0);
    h.mat("angular acceleration is kept", b.ang_acc_b_in_l, a.ang_acc_b_in_l, 0);
    const State & T = e->m_state;
    h.ok("sensors are kept", T.imu_states.size() == S.imu_states.size() && T.cam_states.size() == S.cam_states.size() && T.gps_states.size() == S.gps_states.size() && T.fid_states.size() == S.fid_states.size());
    for (auto & x : S.imu_states) {
      auto & y = T.imu_states.at(x.first);
      h.mat("IMU state is kept", y.pos_i_in_b, x.second.pos_i_in_b, 0); h.quat("IMU state is kept (orientation)", y.ang_i_to_b, x.second.ang_i_to_b, 0);
      h.mat("IMU bias is kept", y.acc_bias, x.second.acc_bias, 0); h.mat("IMU bias is kept", y.omg_bias, x.second.omg_bias, 0);
    }
    for (auto & x : S.gps_states) {h.mat("GPS state is kept", T.gps_states.at(x.first).pos_a_in_b, x.second.pos_a_in_b, 0);}
    for (auto & x : S.cam_states) {h.mat("camera state is kept", T.cam_states.at(x.first).pos_c_in_b, x.second.pos_c_in_b, 0); h.quat("camera orientation is kept", T.cam_states.at(x.first).ang_c_to_b, x.second.ang_c_to_b, 0);}
    for (auto & x : S.fid_states) {h.mat("fiducial state is kept", T.fid_states.at(x.first).pos_f_in_l, x.second.pos_f_in_l, 0); h.quat("fiducial orientation is kept", T.fid_states.at(x.first).ang_f_to_l, x.second.ang_f_to_l, 0);}
    for (auto & x : S.aug_states) {
      if (!h.ok("clones are kept", T.aug_states.at(x.first).size() == x.second.size())) {continue;}
      for (unsigned k = 0; k < x.second.size(); ++k) {h.mat("clone pose is kept", T.aug_states.at(x.first)[k].pos_b_in_l, x.second[k].pos_b_in_l, 0);}
    }
  }
  // the first time seen becomes the reference, later times are relative to it; time never runs backwards
  for (long k = 0; k < h.iters / 4; ++k, ++h.cases) {
    auto p = params(h, h.b(), AugmentationType::NONE);
    EKF e(p);
    bool init = h.i(0, 3) == 0;
    double ref = 0, seen = -1e300, t = h.u(-5, 1e6);
    if (init) {double it = h.u(0, 3); e.Initialize(it, gen_body(h)); h.ok("initial time", e.GetCurrentTime() == it); seen = it;} else {ref = t;}
    if (h.b()) {e.InitializeGravity();}
    std::ostringstream o; o << "clock t=" << t << " initialised=" << init;
    for (int j = 0; j < 12; ++j) {
      h.ctx = o.str() + " step " + std::to_string(j);
      double l = e.CalculateLocalTime(t);
      h.near("local time is relative to the first time seen", l, t - ref, 1e-12);
      if (j == 0 && !init) {h.ok("first local time is zero", l == 0 && e.GetCurrentTime() == 0); seen = 0;}
      e.PredictModel(l);
      seen = std::max(seen, l);
      h.ok("the filter's time is the latest requested", e.GetCurrentTime() == seen);
      t += h.i(0, 3) ? h.u(0, 1) : -(h.b() ? h.u(0, 2) : h.lg(1e-4, 1));
    }
  }
}
