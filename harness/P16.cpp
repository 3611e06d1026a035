#include "updref.hpp"
#include "ekf/update/imu_updater.hpp"
#include "ekf/constants.hpp"

static const Vector3d GR(0, 0, 9.80665);
static VectorXd model(const State & S, unsigned id)
{
  const ImuState & o = S.imu_states.at(id);
  Matrix3d Ri = rotm(o.ang_i_to_b).transpose(), Rb = rotm(S.body_state.ang_b_to_l).transpose();
  const Vector3d & w = S.body_state.ang_vel_b_in_l, & al = S.body_state.ang_acc_b_in_l, & p = o.pos_i_in_b;
  VectorXd r(6);
  r.head(3) = o.acc_bias + Ri * (Rb * S.body_state.acc_b_in_l + al.cross(p) + w.cross(w.cross(p)));
  r.tail(3) = o.omg_bias + Ri * Rb * w;
  return r;
}
// bias and gravity as a resting IMU sees them
static VectorXd still(const State & S, unsigned id, bool in)
{
  const ImuState & o = S.imu_states.at(id);
  VectorXd r(in ? 6 : 3);
  r.head(3) = o.acc_bias + rotm(o.ang_i_to_b).transpose() * rotm(S.body_state.ang_b_to_l).transpose() * GR;
  if (in) {r.tail(3) = o.omg_bias;}
  return r;
}
void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    bool root = h.b(), ext = h.b(), in = h.b(), one = h.i(0, 3) == 0, grav = h.b();
    int ns = one ? 0 : h.i(1, 4), nc = h.i(0, 3);
    double t0 = h.u(0, 4);
    unsigned id = static_cast<unsigned>(h.i(31, 40));
    H hc = h;
    auto build = [&](H & g) {
        auto e = gen_ekf(g, root, AugmentationType::ALL, ns, nc);
        e->RegisterIMU(id, gen_imu(g, ext, in), reg_cov(g, 12));
        if (!one) {e->RegisterIMU(50, gen_imu(g, g.b(), g.b()), reg_cov(g, 12));}
        fill_cov(g, *e, root);
        e->m_current_time = t0;
        e->m_time_initialized = true;
        e->m_reference_time = 100;
        if (grav) {e->InitializeGravity();}
        return e;
      };
    auto e2 = build(hc);
    auto e = build(h);
    int n = static_cast<int>(layout_size(e->m_state));
    ImuUpdater u(id, ext, in, ".", 0.0, e->m_debug_logger);
    std::ostringstream o;
    o << (root ? "root " : "covariance ") << show(e->m_state) << " imu id=" << id << " extrinsic=" << ext << " intrinsic=" << in;
    h.ctx = o.str();
    double cbound = h.i(0, 2) ? 1e9 : h.u(0.01, 40), ns_ = h.u(1, 50);
    for (EKF * f : {e.get(), e2.get()}) {f->m_motion_detection_chi_squared = cbound; f->m_imu_noise_scale_factor = ns_;}
    auto fm = [&](const State & s) {return model(s, id);};
    auto fs = [&](const State & s) {return VectorXd(-still(s, id, in));};
    h.mat("predicted acceleration and rate", u.PredictMeasurement(*e), model(e->m_state, id), 1e-10);
    h.mat("Jacobian of the moving IMU", u.GetMeasurementJacobian(*e), numjac(e->m_state, n, fm), 2e-6);
    h.mat("Jacobian of the resting IMU", u.GetZeroAccelerationJacobian(*e), numjac(e->m_state, n, fs), 2e-6);
    bool seen = h.b();
    u.m_initial_motion_detected = seen;
    double t = 100 + t0;
    int reps = h.i(1, 3);
    for (int k = 0; k < reps; ++k) {
      t += h.i(0, 4) ? h.u(0, 0.3) : -h.u(0, 0.1);
      bool calm = h.b();
      VectorXd z6(6);
      if (calm) {
        VectorXd s = still(e->m_state, id, true);
        z6 = s + 0.05 * h.v(6);
      } else {z6 = model(e->m_state, id) + 0.3 * h.v(6);}
      Vector3d a = z6.head(3), w = z6.tail(3);
      Matrix3d Na = root ? Matrix3d(h.diag(3)) : Matrix3d(h.psd(3)), Nw = root ? Matrix3d(h.diag(3)) : Matrix3d(h.psd(3));
      MatrixXd N = MatrixXd::Zero(6, 6);
      N.topLeftCorner(3, 3) = Na; N.bottomRightCorner(3, 3) = Nw;
      int m = in ? 6 : 3;
      VectorXd r0 = still(e2->m_state, id, in) - z6.head(m);
      MatrixXd H0 = numjac(e2->m_state, n, fs), P0 = P_of(*e2, root);
      MatrixXd N0 = N.topLeftCorner(m, m);
      double score = r0.dot((H0 * P0 * H0.transpose() + ns_ * N0).inverse() * r0);
      if (std::abs(score - cbound) < 1e-4 * cbound) {break;}
      bool known = e2->IsGravityInitialized();
      u.UpdateEKF(*e, t, a, Na, w, Nw);
      if (!seen && !(score > cbound && known)) {
        if (score < cbound) {e2->InitializeGravity();}
        e2->PredictModel(t - 100);
        Ref r{e2->m_state, P_of(*e2, root)};
        kalman(r, numjac(r.S, n, fs), r0, N0);
        h.ok("no motion seen", !u.m_initial_motion_detected);
        r.S.body_state.acc_b_in_l = GR; r.S.body_state.ang_vel_b_in_l.setZero(); r.S.body_state.ang_acc_b_in_l.setZero();
        compare(h, "stationary update", *e, root, r, 1e-5);
        h.ok("the filter knows it is stationary", e->m_is_zero_acceleration);
        h.mat("a resting body has gravity only", e->m_state.body_state.acc_b_in_l, GR, 0);
        h.mat("a resting body does not turn", e->m_state.body_state.ang_vel_b_in_l, Vector3d::Zero(), 0);
      } else {
        if (!seen) {seen = true;}
        e2->m_is_zero_acceleration = false;
        Ref r{e2->m_state, P_of(*e2, root)};
        if (e2->m_state.imu_states.size() == 1) {
          const ImuState & s = e2->m_state.imu_states.at(id);
          Matrix3d R = rotm(e2->m_state.body_state.ang_b_to_l) * rotm(s.ang_i_to_b);
          e2->m_state.body_state.acc_b_in_l = R * (a - s.acc_bias);
          e2->m_state.body_state.ang_vel_b_in_l = R * (w - s.omg_bias);
          e2->m_state.body_state.ang_acc_b_in_l.setZero();
        } else {
          MatrixXd J = numjac(r.S, n, fm);
          kalman(r, J, z6 - model(r.S, id), N);
          u.KalmanUpdate(*e2, J, z6 - model(e2->m_state, id), N);   // its own contract is P08
          compare(h, "update with several IMUs", *e2, root, r, 1e-5);
        }
        e2->PredictModel(t - 100);
        h.ok("motion once seen stays seen", u.m_initial_motion_detected);
        h.ok("the filter knows it is moving", !e->m_is_zero_acceleration);
        Ref q{e2->m_state, P_of(*e2, root)};
        compare(h, e2->m_state.imu_states.size() == 1 ? "a single IMU drives the prediction" : "several IMUs: update, then prediction", *e, root, q, 1e-5);
      }
      h.ok("time and gravity", e->m_current_time == e2->m_current_time && e->IsGravityInitialized() == e2->IsGravityInitialized());
      e2->m_state = e->m_state; e2->m_cov = e->m_cov; e2->m_is_zero_acceleration = e->m_is_zero_acceleration;
    }
  }
}
