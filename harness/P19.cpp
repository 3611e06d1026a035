#include "camref.hpp"

void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    AugmentationType at = gen_at(h);
    bool simulated = h.i(0, 4) == 0, distorted = h.i(0, 3) == 0;
    Cam c = gen_cam_ekf(h, false, at, h.b(), h.b(), h.i(0, 2), distorted);
    EKF & e = *c.e;
    double near = h.u(0.5, 4), noise = h.b() ? 0 : 0.002;
    MsckfUpdater u(c.id, true, ".", 0.0, near, e.m_debug_logger);
    u.m_use_true_triangulation = simulated;
    CamState & cs = e.m_state.cam_states[c.id];
    u.m_intrinsics = cs.intrinsics; u.m_pos_c_in_b = cs.pos_c_in_b; u.m_ang_c_to_b = cs.ang_c_to_b;
    double now = e.m_current_time;
    for (int k = 0; k < 4; ++k) {
      bool far = h.i(0, 4) == 0;
      FeatureTrack tr = gen_track(h, c, now, far ? 60 : 0.4, far ? 180 : 12, noise, distorted, e.m_state);
      Tri r = triangulated(c, e.m_state, now, tr);
      std::ostringstream o;
      o << "augmentation " << static_cast<int>(at) << " frames " << tr.track.size() << " depth " << r.depth << " limits " << near << " 100 simulated " << simulated << " distorted " << distorted;
      h.ctx = o.str();
      if (r.cond > 1e6 || std::abs(r.depth - near) < 1e-3 || std::abs(r.depth - 100) < 0.1) {continue;}
      State S0 = e.m_state;
      MatrixXd P0 = e.m_cov;
      Vector3d X(7, 8, 9);
      bool ok = u.TriangulateFeature(now, e, tr, X);
      if (simulated) {
        h.ok("simulated position accepted", ok);
        h.mat("simulated position", X, tr.true_feature_position, 0);
      } else {
        h.ok("depth limits", ok == (near <= r.depth && r.depth <= 100));
        if (ok) {h.mat("closest point to all rays", X, r.X, 1e-13 * r.cond + 1e-8);}
        if (ok && noise == 0 && !distorted) {h.mat("noise-free feature is found", X, tr.true_feature_position, 1e-6 * r.cond + 1e-6);}
      }
      h.mat("estimate left alone", e.m_state.ToVector(), S0.ToVector(), 0);
      h.mat("covariance left alone", e.m_cov, P0, 0);
    }
  }
}
