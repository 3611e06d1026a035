#include "camref.hpp"

void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    AugmentationType at = h.i(0, 5) ? gen_at(h) : AugmentationType::ERROR;
    Cam c = gen_cam_ekf(h, h.b(), at, h.b(), h.b(), h.i(0, 3), false);
    EKF & e = *c.e;
    double now = e.m_current_time;
    auto own = [&](unsigned id) {return at == AugmentationType::ALL || (at == AugmentationType::PRIMARY && id == e.m_primary_camera_id);};
    unsigned key = own(c.id) ? c.id : at == AugmentationType::PRIMARY ? e.m_primary_camera_id : 0;
    if (h.i(0, 9) == 0) {e.m_current_time = now = e.m_state.aug_states[key].back().time;}
    State S0 = e.m_state;
    MatrixXd P0 = e.m_cov;
    for (int k = 0; k < 6; ++k) {
      auto & v = S0.aug_states[key];
      unsigned frame = static_cast<unsigned>(v[static_cast<size_t>(h.i(0, static_cast<int>(v.size()) - 1))].frame_id);
      double t = h.u(c.first - 0.1, now + 0.02);
      int w = h.i(0, 5);
      if (w == 0) {t = v[static_cast<size_t>(h.i(0, static_cast<int>(v.size()) - 1))].time;}
      if (w == 1) {t = v.back().time;}
      if (w == 2) {t = v[0].time;}
      if (w == 3) {t = now;}
      Seen s = lookup(e, S0, now, c.id, frame, t);
      AugState a = e.GetAugState(c.id, frame, t);
      std::ostringstream o;
      o << "augmentation " << static_cast<int>(at) << " camera " << c.id << " primary " << e.m_primary_camera_id << " frame " << frame << " time " << t << " now " << now << " clones at";
      for (auto & x : v) {o << " " << x.time;}
      h.ctx = o.str();
      h.ok("place in the state", static_cast<int>(a.index) == s.i0);
      h.near("fraction", a.alpha, s.alpha, 1e-9);
      h.mat("position", a.pos_b_in_l, s.pose.p, 1e-9);
      h.rot("orientation", a.ang_b_to_l, s.pose.q, 1e-7);
      if (!own(c.id)) {h.near("time", a.time, t, 0);}
    }
    h.mat("estimate left alone", e.m_state.ToVector(), S0.ToVector(), 0);
    h.mat("covariance left alone", e.m_cov, P0, 0);
    h.ok("clone lists left alone", e.m_state.aug_states.size() == S0.aug_states.size());
  }
}
