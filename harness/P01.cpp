#include "ekfgen.hpp"

static void check(H & h, EKF & e, const std::string & hist)
{
  h.ctx = hist + " " + show(e.m_state);
  unsigned int n = layout_size(e.m_state);
  h.ok("covariance is square of the state size", e.m_cov.rows() == n && e.m_cov.cols() == n, std::to_string(e.m_cov.rows()) + "x" + std::to_string(e.m_cov.cols()) + " for " + std::to_string(n));
  h.ok("size counter is the size of the stacked state", e.GetStateSize() == n, std::to_string(e.GetStateSize()) + " for " + std::to_string(n));
  h.ok("State::GetStateSize", e.m_state.GetStateSize() == n);
  h.ok("ToVector has the state's length", e.m_state.ToVector().size() == n);
  std::map<char, unsigned int> sz, start, cnt;
  for (char k : std::string("igcfa")) {sz[k] = 0;}
  unsigned int last = 18;
  for (auto & s : layout(e.m_state)) {
    sz[s.kind] += s.size;
    if (s.kind != 'a') {cnt[s.kind]++;}
    unsigned int idx = 0, size = s.size;
    if (s.kind == 'b') {idx = e.m_state.body_state.index;}
    if (s.kind == 'i') {
      auto & x = e.m_state.imu_states.at(s.id);
      idx = x.index; size = x.size;
      if (x.GetIsExtrinsic()) {h.ok("IMU extrinsic index", x.index_extrinsic == s.index);}
      if (x.GetIsIntrinsic()) {h.ok("IMU intrinsic index", x.index_intrinsic == s.index + (x.GetIsExtrinsic() ? 6 : 0));}
    }
    if (s.kind == 'g') {idx = e.m_state.gps_states.at(s.id).index; size = e.m_state.gps_states.at(s.id).size;}
    if (s.kind == 'c') {idx = e.m_state.cam_states.at(s.id).index; size = e.m_state.cam_states.at(s.id).size;}
    if (s.kind == 'f') {idx = e.m_state.fid_states.at(s.id).index; size = e.m_state.fid_states.at(s.id).size;}
    if (s.kind == 'a') {idx = e.m_state.aug_states.at(s.id)[s.k].index; size = e.m_state.aug_states.at(s.id)[s.k].size;}
    h.ok(std::string("index of '") + s.kind + "' is its place in the layout", idx == s.index, "id " + std::to_string(s.id) + " got " + std::to_string(idx) + " expected " + std::to_string(s.index));
    h.ok(std::string("size of '") + s.kind + "'", size == s.size);
    last = s.index + s.size;
  }
  (void)last;
  h.ok("IMU state size", e.GetImuStateSize() == sz['i']);
  h.ok("GPS state size", e.GetGpsStateSize() == sz['g']);
  h.ok("camera state size", e.GetCamStateSize() == sz['c']);
  h.ok("fiducial state size", e.m_fid_state_size == sz['f']);
  h.ok("clone state size", e.GetAugStateSize() == sz['a']);
  bool any = !e.m_state.imu_states.empty() || !e.m_state.gps_states.empty() || !e.m_state.cam_states.empty() || !e.m_state.fid_states.empty() || sz['a'];
  if (any) {        // the starts are set with the first sensor or clone
    unsigned int a = 18;
    h.ok("IMU start", e.GetImuStateStart() == a); a += sz['i'];
    h.ok("GPS start", e.GetGpsStateStart() == a); a += sz['g'];
    h.ok("camera start", e.GetCamStateStart() == a); a += sz['c'];
    h.ok("fiducial start", e.GetFidStateStart() == a); a += sz['f'];
    h.ok("clone start", e.GetAugStateStart() == a);
    // process noise: square, diagonal, each stability on its own entries
    const MatrixXd & Q = e.m_process_noise;
    if (h.ok("process noise is square of the state size", Q.rows() == n && Q.cols() == n)) {
      VectorXd d = VectorXd::Zero(n);
      d.head(18) = e.m_body_process_noise;
      for (auto & s : layout(e.m_state)) {
        if (s.kind == 'i') {
          auto & x = e.m_state.imu_states.at(s.id);
          unsigned int k = s.index;
          if (x.GetIsExtrinsic()) {d.segment(k, 3).setConstant(x.pos_stability); d.segment(k + 3, 3).setConstant(x.ang_stability); k += 6;}
          if (x.GetIsIntrinsic()) {d.segment(k, 3).setConstant(x.acc_bias_stability); d.segment(k + 3, 3).setConstant(x.omg_bias_stability);}
        }
        if (s.kind == 'g' && s.size) {d.segment(s.index, 3).setConstant(e.m_state.gps_states.at(s.id).pos_stability);}
        if (s.kind == 'c' && s.size) {d.segment(s.index, 3).setConstant(e.m_state.cam_states.at(s.id).pos_stability); d.segment(s.index + 3, 3).setConstant(e.m_state.cam_states.at(s.id).ang_stability);}
        if (s.kind == 'f' && s.size) {d.segment(s.index, 3).setConstant(e.m_state.fid_states.at(s.id).pos_stability); d.segment(s.index + 3, 3).setConstant(e.m_state.fid_states.at(s.id).ang_stability);}
      }
      if (e.m_use_root_covariance) {d = d.cwiseSqrt();}
      h.mat("process noise holds each stability at its own entries", Q, MatrixXd(d.asDiagonal()), 1e-12);
    }
  }
  h.ok("IMU count", e.GetImuCount() == e.m_state.imu_states.size());
  h.ok("GPS count", e.GetGpsCount() == e.m_state.gps_states.size());
  h.ok("camera count", e.GetCamCount() == e.m_state.cam_states.size());
}

void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    bool root = h.b();
    AugmentationType at = static_cast<AugmentationType>(h.i(0, 4));
    auto p = params(h, root, at);
    p.augmenting_delta_time = h.u(0.01, 0.3);
    p.augmenting_pos_error = h.u(0.001, 0.1);
    p.augmenting_ang_error = h.u(0.001, 0.1);
    EKF e(p);
    e.m_state.body_state = gen_body(h);
    unsigned int mx = static_cast<unsigned int>(h.i(1, 5));
    if (h.b()) {e.SetMaxTrackLength(mx);}
    if (h.b()) {e.InitializeGravity();}
    std::string hist = std::string(root ? "root" : "cov") + " aug=" + std::to_string(static_cast<int>(at)) + " max=" + std::to_string(e.m_max_track_length) + " ";
    check(h, e, hist);
    double t = 0;
    int ops = h.i(1, 25);
    for (int k = 0; k < ops; ++k) {
      unsigned int id = static_cast<unsigned int>(h.i(1, 9));
      switch (h.i(0, 9)) {
        case 0: {bool x = h.b(), y = h.b(); e.RegisterIMU(id, gen_imu(h, x, y), reg_cov(h, 12)); hist += "imu "; break;}
        case 1: {Matrix3d c = reg_cov(h, 3); e.RegisterGPS(id, gen_gps(h, h.b()), c); hist += "gps "; break;}
        case 2: {auto c = gen_cam(h, h.b()); e.RegisterCamera(id, c, reg_cov(h, 6)); hist += "cam "; break;}
        case 3: e.RegisterFiducial(gen_fid(h, id, h.b()), reg_cov(h, 6)); hist += "fid "; break;
        case 4: case 5: case 6:
          e.m_state.body_state.pos_b_in_l += h.v3(0.2);
          e.AugmentStateIfNeeded(static_cast<unsigned int>(h.i(1, 4)), static_cast<unsigned int>(k)); hist += "frame "; break;
        case 7: e.SetMaxTrackLength(std::max(e.m_max_track_length, mx)); break;
        default:
          t += h.i(0, 4) ? h.u(0.01, 0.4) : h.u(1, 4);
          e.PredictModel(t); hist += "predict ";
      }
      check(h, e, hist);
    }
  }
  // the flags of a sensor state give its size
  for (int k = 0; k < 64; ++k, ++h.cases) {
    bool a = k & 1, b = k & 2, c = k & 4, d = k & 8;
    h.ctx = "flags " + std::to_string(k);
    ImuState i; i.SetIsExtrinsic(a); i.SetIsIntrinsic(b); i.SetIsExtrinsic(c); i.SetIsIntrinsic(d);
    h.ok("IMU size follows its flags", i.size == (c ? 6u : 0u) + (d ? 6u : 0u) && i.GetIsExtrinsic() == c && i.GetIsIntrinsic() == d);
    GpsState g; g.SetIsExtrinsic(a); g.SetIsExtrinsic(b);
    h.ok("GPS size follows its flag", g.size == (b ? 3u : 0u) && g.GetIsExtrinsic() == b);
    CamState m; m.SetIsExtrinsic(a); m.SetIsExtrinsic(b);
    h.ok("camera size follows its flag", m.size == (b ? 6u : 0u) && m.GetIsExtrinsic() == b);
    FidState f; f.SetIsExtrinsic(a); f.SetIsExtrinsic(b);
    h.ok("fiducial size follows its flag", f.size == (b ? 6u : 0u) && f.GetIsExtrinsic() == b);
  }
}
