#include "ekfgen.hpp"

static bool same(const AugState & a, const AugState & b)
{
  return a.frame_id == b.frame_id && a.time == b.time && a.pos_b_in_l == b.pos_b_in_l && a.ang_b_to_l.coeffs() == b.ang_b_to_l.coeffs();
}
typedef std::map<unsigned int, std::vector<AugState>> Win;
static size_t count(const Win & w) {size_t n = 0; for (auto & x : w) {n += x.second.size();} return n;}
static void compare(H & h, const std::string & what, const Win & got, const Win & want)
{
  h.ok(what + ": number of clones", count(got) == count(want), std::to_string(count(got)) + " expected " + std::to_string(count(want)));
  for (auto & x : want) {
    if (x.second.empty()) {continue;}
    auto it = got.find(x.first);
    if (!h.ok(what + ": clones of every camera", it != got.end() && it->second.size() == x.second.size(),
      "camera " + std::to_string(x.first) + " has " + std::to_string(it == got.end() ? 0 : it->second.size()) + " expected " + std::to_string(x.second.size()))) {continue;}
    for (size_t k = 0; k < x.second.size(); ++k) {h.ok(what + ": the clones kept, oldest first, are the latest ones", same(it->second[k], x.second[k]), "position " + std::to_string(k));}
  }
}
// covariance of the new layout: every entry that was there keeps its value, a new clone copies the pose
static void cov_follows(H & h, const MatrixXd & P0, const State & S0, const MatrixXd & P1, const State & S1, double now)
{
  auto L0 = layout(S0), L1 = layout(S1);
  int n1 = static_cast<int>(layout_size(S1));
  std::vector<int> src(n1, -1);
  for (auto & s : L1) {
    for (unsigned k = 0; k < s.size; ++k) {
      int at = -1;
      for (auto & q : L0) {
        if (q.kind != s.kind || q.id != s.id) {continue;}
        if (s.kind == 'a' && !same(S0.aug_states.at(q.id)[q.k], S1.aug_states.at(s.id)[s.k])) {continue;}
        at = static_cast<int>(q.index + k);
        break;
      }
      if (at < 0 && s.kind == 'a') {at = k < 3 ? static_cast<int>(k) : static_cast<int>(9 + k - 3);}
      src[s.index + k] = at;
    }
  }
  (void)now;
  MatrixXd X(n1, n1);
  for (int i = 0; i < n1; ++i) {for (int j = 0; j < n1; ++j) {X(i, j) = src[i] >= 0 && src[j] >= 0 ? P0(src[i], src[j]) : 1e300;}}
  h.mat("covariance of all kept states is unchanged and a new clone copies the pose's", P1, X, 1e-8);
}

void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    bool root = h.i(0, 2) == 0;
    AugmentationType at = static_cast<AugmentationType>(h.i(0, 4));
    auto p = params(h, root, at);
    p.augmenting_delta_time = h.u(0.02, 0.4);
    p.augmenting_pos_error = h.u(0.01, 0.2);
    p.augmenting_ang_error = h.u(0.01, 0.2);
    EKF e(p);
    e.m_state.body_state = gen_body(h);
    unsigned int mx = static_cast<unsigned int>(h.i(1, 5));
    add_random_sensors(h, e, h.i(0, 3));
    e.RegisterCamera(static_cast<unsigned int>(h.i(31, 33)), gen_cam(h, h.b()), reg_cov(h, 6));
    if (h.b()) {e.RegisterCamera(2, gen_cam(h, h.b()), reg_cov(h, 6));}
    e.SetMaxTrackLength(mx);
    double dur = e.m_max_track_duration;
    double per = e.m_max_frame_period;
    h.ctx = "set";
    h.ok("longest track duration covers the track length", dur >= per * mx * (1 - 1e-12));
    fill_cov(h, e, root);
    double t = h.u(0, 2), prev = 0;
    e.m_current_time = t;
    bool frame = e.m_frame_received_since_last_aug;
    std::ostringstream hs;
    hs << (root ? "root" : "cov") << " aug=" << static_cast<int>(at) << " max=" << mx << " primary=" << e.m_primary_camera_id << " ";
    int ops = h.i(2, 18);
    unsigned fr = 0;
    for (int k = 0; k < ops; ++k) {
      e.m_state.body_state = gen_body(h);
      if (h.b()) {
        auto & v = e.m_state.aug_states;
        if (v.count(0) && !v[0].empty()) {     // close to the predicted pose
          double dt = t - v[0].back().time;
          double sc = h.i(0, 2) ? 0.3 : 3;
          e.m_state.body_state.pos_b_in_l = v[0].back().pos_b_in_l + dt * e.m_state.body_state.vel_b_in_l + h.v3(p.augmenting_pos_error * sc);
          e.m_state.body_state.ang_b_to_l = qprod(qprod(qexp(h.v3(p.augmenting_ang_error * sc)), v[0].back().ang_b_to_l), qexp(e.m_state.body_state.ang_vel_b_in_l * dt));
        }
      }
      if (h.i(0, 3)) {fill_cov(h, e, root);}     // clones of one pose would otherwise have equal covariances
      State S = e.m_state;
      MatrixXd P = P_of(e, root);
      Win w = S.aug_states;
      AugState now;
      now.time = t; now.pos_b_in_l = S.body_state.pos_b_in_l; now.ang_b_to_l = S.body_state.ang_b_to_l;
      if (h.i(0, 2)) {
        unsigned cams[5] = {e.m_primary_camera_id, 2, 31, 1, 0};
        unsigned cam = cams[h.i(0, 4)];
        ++fr;
        hs << "frame(" << cam << "," << fr << ") ";
        h.ctx = hs.str();
        e.AugmentStateIfNeeded(cam, fr);
        frame = true;
        if (at == AugmentationType::ALL || (at == AugmentationType::PRIMARY && cam == e.m_primary_camera_id)) {
          now.frame_id = fr;
          w[cam].push_back(now);
          if (w[cam].size() > mx) {w[cam].erase(w[cam].begin());}
        }
        compare(h, "after a frame", e.m_state.aug_states, w);
        for (auto & x : e.m_state.aug_states) {h.ok("no list is longer than the maximum", x.second.size() <= mx || at == AugmentationType::TIME || at == AugmentationType::ERROR);}
        cov_follows(h, P, S, P_of(e, root), e.m_state, t);
      } else {
        t += h.i(0, 3) ? h.u(0.001, 0.5) : h.u(0.5, 4) * (dur + 0.01);
        now.time = t;
        e.m_current_time = t;
        hs << "window(" << t << ") ";
        h.ctx = hs.str();
        e.AugmentStateIfNeeded();
        bool need = false, close = false;
        if (at == AugmentationType::TIME || at == AugmentationType::ERROR) {
          auto & l = w[0];
          if (l.empty()) {need = true;} else if (at == AugmentationType::TIME) {
            need = t - prev > p.augmenting_delta_time;
            close = std::abs(t - prev - p.augmenting_delta_time) < 1e-9;
          } else {
            double dt = t - l.back().time;
            Vector3d dp = S.body_state.pos_b_in_l - (l.back().pos_b_in_l + dt * S.body_state.vel_b_in_l);
            Vector3d da = qlog(qprod(qprod(S.body_state.ang_b_to_l, qbar(qexp(S.body_state.ang_vel_b_in_l * dt))), qbar(l.back().ang_b_to_l)));
            bool moved = dp.norm() > p.augmenting_pos_error || da.norm() > p.augmenting_ang_error;
            need = dt > dur || (dt > e.m_min_aug_period && moved);
            close = std::abs(dp.norm() - p.augmenting_pos_error) < 1e-7 || std::abs(da.norm() - p.augmenting_ang_error) < 1e-7;
          }
          while (l.size() >= 2 && t - l[1].time > dur) {l.erase(l.begin());}
          if (need && frame && !close) {l.push_back(now); prev = t;}
          if (close) {break;}
          if (need && frame) {frame = false;}
        }
        compare(h, "after a prediction", e.m_state.aug_states, w);
        cov_follows(h, P, S, P_of(e, root), e.m_state, t);
        h.ok("a frame is needed between clones", e.m_frame_received_since_last_aug == frame);
      }
    }
  }
}
