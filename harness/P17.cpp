#include "updref.hpp"
#include "ekf/update/fiducial_updater.hpp"
#include "ekf/types.hpp"

struct Pose {Vector3d p; Matrix3d R;};
static Pose seen(const State & S, unsigned cam, unsigned fid)
{
  const CamState & c = S.cam_states.at(cam);
  const FidState & f = S.fid_states.at(fid);
  Matrix3d Rb = rotm(S.body_state.ang_b_to_l).transpose(), Rc = rotm(c.ang_c_to_b).transpose();
  return {Rc * (Rb * (f.pos_f_in_l - S.body_state.pos_b_in_l) - c.pos_c_in_b), Rc * Rb * rotm(f.ang_f_to_l)};
}
static Vector3d rlog(const Matrix3d & R) {return qlog(Quaterniond(R));}
// position as it is, orientation as rotation vector from the base pose
static VectorXd rel(const Pose & x, const Pose & base)
{
  VectorXd r(6);
  r.head(3) = x.p; r.tail(3) = rlog(x.R * base.R.transpose());
  return r;
}
void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    bool root = h.b(), ce = h.b(), fe = h.b();
    int ns = h.i(0, 4), nc = h.i(0, 3);
    double t0 = h.u(0, 4);
    unsigned cam = static_cast<unsigned>(h.i(31, 40)), fid = static_cast<unsigned>(h.i(31, 40));
    H hc = h;
    auto build = [&](H & g) {
        auto e = gen_ekf(g, root, AugmentationType::ALL, ns, nc);
        e->RegisterCamera(cam, gen_cam(g, ce), reg_cov(g, 6));
        e->RegisterFiducial(gen_fid(g, fid, fe), reg_cov(g, 6));
        fill_cov(g, *e, root);
        e->m_current_time = t0;
        e->m_time_initialized = true;
        e->m_reference_time = 100;
        e->InitializeGravity();
        return e;
      };
    auto e2 = build(hc);
    auto e = build(h);
    int n = static_cast<int>(layout_size(e->m_state));
    FiducialUpdater u(fid, cam, fe, ce, ".", 0.0, e->m_debug_logger);
    std::ostringstream o;
    o << (root ? "root " : "covariance ") << show(e->m_state) << " camera=" << cam << " marker=" << fid << " calibrated: camera=" << ce << " marker=" << fe;
    h.ctx = o.str();
    Pose s = seen(e->m_state, cam, fid);
    VectorXd z = u.PredictMeasurement(*e);
    h.ok("six predicted entries", z.size() == 6);
    h.mat("predicted position", z.head(3), s.p, 1e-9);
    h.mat("predicted orientation", rotm(qexp(z.tail<3>())), s.R, 1e-9);
    auto fm = [&](const State & x) {return rel(seen(x, cam, fid), s);};
    h.mat("Jacobian of the predicted pose", u.GetMeasurementJacobian(*e), numjac(e->m_state, n, fm), 2e-6);
    double t = 100 + t0;
    int reps = h.i(1, 3);
    for (int k = 0; k < reps; ++k) {
      t += h.i(0, 4) ? h.u(0, 0.3) : -h.u(0, 0.1);
      e2->PredictModel(t - 100);
      s = seen(e2->m_state, cam, fid);
      BoardDetection d;
      Quaterniond dq = qexp(h.v3(h.b() ? 0.02 : 1.5));
      d.pos_f_in_c = s.p + 0.1 * h.v3();
      d.ang_f_to_c = dq * Quaterniond(s.R);
      if (h.b()) {d.ang_f_to_c.coeffs() *= -1;}
      d.pos_error = h.v3().cwiseAbs() + Vector3d::Constant(0.01);
      d.ang_error = h.v3().cwiseAbs() + Vector3d::Constant(0.01);
      VectorXd r(6);
      r.head(3) = d.pos_f_in_c - s.p; r.tail(3) = qlog(dq);
      VectorXd dn(6);
      dn << d.pos_error, d.ang_error;
      auto fk = [&](const State & x) {return rel(seen(x, cam, fid), s);};
      Ref ref{e2->m_state, P_of(*e2, root)};
      kalman(ref, numjac(ref.S, n, fk), r, MatrixXd(dn.asDiagonal()));
      u.UpdateEKF(*e, t, d);
      compare(h, "marker update", *e, root, ref, 1e-5);
      h.ok("time", e->m_current_time == e2->m_current_time);
      e2->m_state = e->m_state; e2->m_cov = e->m_cov;
    }
  }
}
