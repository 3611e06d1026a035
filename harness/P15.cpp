#include "updref.hpp"
#include "geo.hpp"
#include "ekf/update/gps_updater.hpp"

static MatrixXd jac(const State & S, unsigned id, int n)
{
  const GpsState & g = S.gps_states.at(id);
  Quaterniond q = S.body_state.ang_b_to_l;
  Vector3d th = qlog(q);
  double m = std::max(th.norm(), 1e-9);
  Matrix3d Sk = skew(th), J = Matrix3d::Identity() - (1 - std::cos(m)) / (m * m) * Sk + (m - std::sin(m)) / (m * m * m) * Sk * Sk;
  MatrixXd H_ = MatrixXd::Zero(3, n);
  H_.block<3, 3>(0, 0).setIdentity();
  H_.block<3, 3>(0, 9) = -rotm(q) * skew(g.pos_a_in_b) * J;
  for (auto & s : layout(S)) {if (s.kind == 'g' && s.id == id && s.size) {H_.block<3, 3>(0, s.index) = rotm(q);}}
  return H_;
}

void run(H & h)
{
  std::string dir = ".";
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    bool root = h.b();
    int ns = h.i(0, 4), nc = h.i(0, 3);
    double t0 = h.u(0, 4);
    bool grav = h.b();
    unsigned id = static_cast<unsigned>(h.i(31, 40));
    H hc = h;
    auto build = [&](H & g) {
        auto e = gen_ekf(g, root, AugmentationType::ALL, ns, nc);
        Matrix3d c = g.diag(3);
        e->RegisterGPS(id, gen_gps(g, g.i(0, 3) != 0), c);
        fill_cov(g, *e, root);
        e->m_current_time = t0;
        e->m_time_initialized = true;
        e->m_reference_time = 100;
        if (grav) {e->InitializeGravity();}
        return e;
      };
    auto e2 = build(hc);
    auto e = build(h);
    bool ext = e->m_state.gps_states[id].GetIsExtrinsic();
    Vector3d ref = geo::gen(h, false);
    double head = h.u(-3, 3);
    GpsUpdater u(id, ext, dir, 0.0, e->m_debug_logger);
    std::ostringstream o;
    o << (root ? "root " : "covariance ") << show(e->m_state) << " gps id=" << id;
    h.ctx = o.str();
    int n = static_cast<int>(layout_size(e->m_state));
    Vector3d hat = e->m_state.body_state.pos_b_in_l + rotm(e->m_state.body_state.ang_b_to_l) * e->m_state.gps_states[id].pos_a_in_b;
    h.mat("predicted antenna position", u.PredictMeasurement(*e), hat, 1e-10);
    h.mat("measurement Jacobian", u.GetMeasurementJacobian(*e), jac(e->m_state, id, n), 1e-6);
    bool known = h.b();
    if (known) {
      e->SetGpsReference(ref, head); e2->SetGpsReference(ref, head);
      double t = 100 + t0 + (h.i(0, 4) ? h.u(0, 0.3) : -h.u(0, 0.3));
      Vector3d z = hat + h.v3(2);
      Vector3d lla = geo::lla(geo::from_enu(geo::to_enu(z, head), ref));
      MatrixXd N = root ? MatrixXd(h.diag(3)) : h.psd(3);
      int reps = h.i(1, 3);
      for (int k = 0; k < reps; ++k) {
        u.UpdateEKF(*e, t, lla, N);
        e2->PredictModel(t - 100);
        Ref r{e2->m_state, P_of(*e2, root)};
        Vector3d p = r.S.body_state.pos_b_in_l + rotm(r.S.body_state.ang_b_to_l) * r.S.gps_states[id].pos_a_in_b;
        Vector3d zl = geo::to_local(geo::enu(geo::ecef(lla), ref), head);
        kalman(r, jac(r.S, id, n), zl - p, N);
        compare(h, "update with a known reference", *e, root, r, 1e-5);
        h.ok("the filter's time is that of the prediction", e->m_current_time == e2->m_current_time);
        h.ok("no sample is stored with a known reference", e->GetGpsTimeVector().empty());
        h.mat("the reference is kept", e->m_pos_e_in_g, ref, 0);
        if (reps > 1) {                 // continue from the library's estimate
          e2->m_state = e->m_state; e2->m_cov = e->m_cov;
          t += h.u(0, 0.2);
        }
      }
      continue;
    }
    // unknown reference: samples are collected until it is found
    for (EKF * f : {e.get(), e2.get()}) {
      f->m_is_lla_initialized = false;
      f->m_gps_init_type = GpsInitType::BASELINE_DIST;
      f->m_gps_init_baseline_dist = 12;
    }
    double t = 100 + t0;
    for (int k = 0; k < 12; ++k) {
      t += 0.1;
      Vector3d b = h.v3(10), v = h.v3();
      for (EKF * f : {e.get(), e2.get()}) {f->m_state.body_state.pos_b_in_l = b; f->m_state.body_state.vel_b_in_l = v;}
      Vector3d lla = geo::lla(geo::from_enu(geo::to_enu(b + h.v3(0.2), head), ref));
      u.UpdateEKF(*e, t, lla, MatrixXd(Matrix3d::Identity()));
      e2->PredictModel(t - 100);
      e2->AttemptGpsInitialization(t - 100, lla);        // its own contract is P14
      Ref r{e2->m_state, P_of(*e2, root)};
      h.ok("the sample goes to the initialisation", e->GetGpsTimeVector() == e2->GetGpsTimeVector() && e->GetGpsXyzVector() == e2->GetGpsXyzVector() && e->GetGpsEcefVector() == e2->GetGpsEcefVector());
      h.ok("the reference is that of the initialisation", e->IsLlaInitialized() == e2->IsLlaInitialized() && e->m_pos_e_in_g == e2->m_pos_e_in_g && e->m_ang_l_to_e == e2->m_ang_l_to_e);
      if (!e2->IsLlaInitialized()) {
        compare(h, "without a reference nothing is corrected", *e, root, r, 1e-12);
        continue;
      }
      int m = static_cast<int>(e2->GetGpsEcefVector().size());
      MatrixXd Hs(3 * m, n);
      VectorXd rs(3 * m);
      for (int j = 0; j < m; ++j) {
        Hs.middleRows(3 * j, 3) = jac(r.S, id, n);
        rs.segment(3 * j, 3) = geo::to_local(geo::enu(e2->m_gps_ecef_vec[j], e2->m_pos_e_in_g), e2->m_ang_l_to_e) - e2->m_gps_xyz_vec[j];
      }
      kalman(r, Hs, rs, MatrixXd::Identity(3 * m, 3 * m));
      compare(h, "the stored samples are used when the reference is found", *e, root, r, 1e-5);
      break;
    }
  }
}
