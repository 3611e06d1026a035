#include "ekfgen.hpp"

template<class S>
static void same_sensor(H & h, const S & a, const S & b);
template<> void same_sensor(H & h, const ImuState & a, const ImuState & b)
{
  h.mat("IMU position as given", a.pos_i_in_b, b.pos_i_in_b, 0); h.quat("IMU orientation as given", a.ang_i_to_b, b.ang_i_to_b, 0);
  h.mat("IMU biases as given", a.acc_bias, b.acc_bias, 0); h.mat("IMU biases as given", a.omg_bias, b.omg_bias, 0);
  h.ok("IMU stabilities and flags as given", a.pos_stability == b.pos_stability && a.ang_stability == b.ang_stability && a.acc_bias_stability == b.acc_bias_stability &&
    a.omg_bias_stability == b.omg_bias_stability && a.GetIsExtrinsic() == b.GetIsExtrinsic() && a.GetIsIntrinsic() == b.GetIsIntrinsic() && a.size == b.size);
}
template<> void same_sensor(H & h, const GpsState & a, const GpsState & b)
{
  h.mat("GPS position as given", a.pos_a_in_b, b.pos_a_in_b, 0);
  h.ok("GPS stability and flag as given", a.pos_stability == b.pos_stability && a.GetIsExtrinsic() == b.GetIsExtrinsic() && a.size == b.size);
}
template<> void same_sensor(H & h, const CamState & a, const CamState & b)
{
  h.mat("camera position as given", a.pos_c_in_b, b.pos_c_in_b, 0); h.quat("camera orientation as given", a.ang_c_to_b, b.ang_c_to_b, 0);
  h.ok("camera data as given", a.pos_stability == b.pos_stability && a.ang_stability == b.ang_stability && a.rate == b.rate && a.GetIsExtrinsic() == b.GetIsExtrinsic() && a.size == b.size &&
    a.intrinsics.f_x == b.intrinsics.f_x && a.intrinsics.k_1 == b.intrinsics.k_1);
}
template<> void same_sensor(H & h, const FidState & a, const FidState & b)
{
  h.mat("fiducial position as given", a.pos_f_in_l, b.pos_f_in_l, 0); h.quat("fiducial orientation as given", a.ang_f_to_l, b.ang_f_to_l, 0);
  h.ok("fiducial data as given", a.pos_stability == b.pos_stability && a.ang_stability == b.ang_stability && a.id == b.id && a.GetIsExtrinsic() == b.GetIsExtrinsic() && a.size == b.size);
}

void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    bool root = h.b();
    auto e = gen_ekf(h, root, h.b() ? AugmentationType::ALL : AugmentationType::NONE, h.i(0, 7), h.i(0, 3));
    if (h.b()) {e->m_current_time = h.u(0, 9);}
    State S = e->m_state;
    MatrixXd C = e->m_cov;
    unsigned int id = static_cast<unsigned int>(h.i(1, 31));
    int kind = h.i(0, 3);
    double fp = e->m_max_frame_period, ap = e->m_min_aug_period;
    unsigned int prim = e->m_primary_camera_id;
    ImuState im = gen_imu(h, h.b(), h.b());
    GpsState gp = gen_gps(h, h.b());
    CamState ca = gen_cam(h, h.b());
    FidState fi = gen_fid(h, id, h.b());
    int w = 0, cw = kind == 1 ? 3 : 12;
    MatrixXd given = h.psd(cw);
    if (root) {given = given.cwiseAbs();}       // the root form takes the component-wise square root of the block
    h.ctx = show(S) + " register " + "igcf"[kind] + std::to_string(id) + (root ? " root" : "");
    bool known = false;
    char kc = "igcf"[kind];
    if (kind == 0) {known = S.imu_states.count(id); w = static_cast<int>(im.size); e->RegisterIMU(id, im, given);}
    if (kind == 1) {known = S.gps_states.count(id); w = static_cast<int>(gp.size); Matrix3d g3 = given; e->RegisterGPS(id, gp, g3);}
    if (kind == 2) {known = S.cam_states.count(id); w = static_cast<int>(ca.size); e->RegisterCamera(id, ca, given);}
    if (kind == 3) {known = S.fid_states.count(id); w = static_cast<int>(fi.size); e->RegisterFiducial(fi, given);}
    const State & T = e->m_state;
    if (known) {
      h.mat("a known identifier leaves the covariance alone", e->m_cov, C, 0);
      h.ok("a known identifier adds nothing", T.imu_states.size() == S.imu_states.size() && T.gps_states.size() == S.gps_states.size() && T.cam_states.size() == S.cam_states.size() && T.fid_states.size() == S.fid_states.size());
      h.ok("a known identifier leaves the periods alone", e->m_max_frame_period == fp && e->m_min_aug_period == ap && e->m_primary_camera_id == prim);
    } else {
      h.ok("exactly one sensor is added", T.imu_states.size() == S.imu_states.size() + (kind == 0) && T.gps_states.size() == S.gps_states.size() + (kind == 1) &&
        T.cam_states.size() == S.cam_states.size() + (kind == 2) && T.fid_states.size() == S.fid_states.size() + (kind == 3));
      if (!h.ok("the sensor is stored under its identifier", kind == 0 ? T.imu_states.count(id) : kind == 1 ? T.gps_states.count(id) : kind == 2 ? T.cam_states.count(id) : T.fid_states.count(id))) {continue;}
      if (kind == 0) {same_sensor(h, T.imu_states.at(id), im);}
      if (kind == 1) {same_sensor(h, T.gps_states.at(id), gp);}
      if (kind == 2) {same_sensor(h, T.cam_states.at(id), ca);}
      if (kind == 3) {same_sensor(h, T.fid_states.at(id), fi);}
      int at = -1;
      for (auto & s : layout(T)) {if (s.kind == kc && s.id == id) {at = static_cast<int>(s.index);}}
      int n = static_cast<int>(C.rows());
      MatrixXd X = MatrixXd::Zero(n + w, n + w);
      auto src = [&](int i) {return i < at ? i : i - w;};
      for (int i = 0; i < n + w; ++i) {
        for (int j = 0; j < n + w; ++j) {
          bool a = i >= at && i < at + w, b = j >= at && j < at + w;
          if (a && b) {X(i, j) = root ? std::sqrt(given(i - at, j - at)) : given(i - at, j - at);}
          if (!a && !b) {X(i, j) = C(src(i), src(j));}
        }
      }
      h.mat("covariance gets the given block at the sensor's own place and keeps every other entry", e->m_cov, X, 1e-12);
      if (kind == 2) {
        double per = 1 / ca.rate;
        h.near("longest frame period", e->m_max_frame_period, std::max(fp, per), 1e-12);
        h.near("shortest clone period", e->m_min_aug_period, std::min(ap, per), 1e-12);
        h.ok("first camera is the primary one", e->m_primary_camera_id == (prim ? prim : id));
      } else {
        h.ok("only cameras change the frame periods", e->m_max_frame_period == fp && e->m_min_aug_period == ap && e->m_primary_camera_id == prim);
      }
    }
    // everything that was there keeps its values
    for (auto & x : S.imu_states) {same_sensor(h, T.imu_states.at(x.first), x.second);}
    for (auto & x : S.gps_states) {same_sensor(h, T.gps_states.at(x.first), x.second);}
    for (auto & x : S.cam_states) {same_sensor(h, T.cam_states.at(x.first), x.second);}
    for (auto & x : S.fid_states) {same_sensor(h, T.fid_states.at(x.first), x.second);}
    for (auto & x : S.aug_states) {
      if (!h.ok("clones are kept", T.aug_states.count(x.first) && T.aug_states.at(x.first).size() == x.second.size())) {continue;}
      for (unsigned k = 0; k < x.second.size(); ++k) {
        auto & a = T.aug_states.at(x.first)[k]; auto & b = x.second[k];
        h.mat("clone pose is kept", a.pos_b_in_l, b.pos_b_in_l, 0); h.quat("clone pose is kept", a.ang_b_to_l, b.ang_b_to_l, 0);
        h.ok("clone frame and time are kept", a.frame_id == b.frame_id && a.time == b.time);
      }
    }
    h.mat("body state is kept", T.body_state.pos_b_in_l, S.body_state.pos_b_in_l, 0);
    h.mat("body state is kept", T.body_state.vel_b_in_l, S.body_state.vel_b_in_l, 0);
    h.mat("body state is kept", T.body_state.acc_b_in_l, S.body_state.acc_b_in_l, 0);
    h.quat("body orientation is kept", T.body_state.ang_b_to_l, S.body_state.ang_b_to_l, 0);
  }
}
