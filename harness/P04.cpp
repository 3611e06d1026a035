#include "ekfgen.hpp"

static Vector3d rv(const Quaterniond & q) {return qlog(q);}

static VectorXd vec_of(const State & s)
{
  VectorXd v(layout_size(s));
  v.setConstant(777);
  auto put = [&](unsigned int at, const Vector3d & x) {v.segment(at, 3) = x;};
  const BodyState & b = s.body_state;
  put(0, b.pos_b_in_l); put(3, b.vel_b_in_l); put(6, b.acc_b_in_l); put(9, rv(b.ang_b_to_l)); put(12, b.ang_vel_b_in_l); put(15, b.ang_acc_b_in_l);
  for (auto & x : layout(s)) {
    unsigned int at = x.index;
    if (x.kind == 'i') {
      auto & o = s.imu_states.at(x.id);
      if (o.GetIsExtrinsic()) {put(at, o.pos_i_in_b); put(at + 3, rv(o.ang_i_to_b)); at += 6;}
      if (o.GetIsIntrinsic()) {put(at, o.acc_bias); put(at + 3, o.omg_bias);}
    }
    if (x.kind == 'g' && x.size) {put(at, s.gps_states.at(x.id).pos_a_in_b);}
    if (x.kind == 'c' && x.size) {put(at, s.cam_states.at(x.id).pos_c_in_b); put(at + 3, rv(s.cam_states.at(x.id).ang_c_to_b));}
    if (x.kind == 'f' && x.size) {put(at, s.fid_states.at(x.id).pos_f_in_l); put(at + 3, rv(s.fid_states.at(x.id).ang_f_to_l));}
    if (x.kind == 'a') {put(at, s.aug_states.at(x.id)[x.k].pos_b_in_l); put(at + 3, rv(s.aug_states.at(x.id)[x.k].ang_b_to_l));}
  }
  return v;
}

void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    State S = gen_state(h), T = gen_state(h), S2 = S;
    h.ctx = show(S);
    VectorXd v = S.ToVector();
    h.ok("state size is the sum of the estimated parts", S.GetStateSize() == layout_size(S));
    h.mat("vector holds every estimated quantity at its own index", v, vec_of(S), 1e-7);
    // write another state's values of the same shape, then read them back
    for (auto & x : S2.imu_states) {x.second = gen_imu(h, x.second.GetIsExtrinsic(), x.second.GetIsIntrinsic());}
    for (auto & x : S2.gps_states) {x.second = gen_gps(h, x.second.GetIsExtrinsic());}
    for (auto & x : S2.cam_states) {x.second = gen_cam(h, x.second.GetIsExtrinsic());}
    for (auto & x : S2.fid_states) {x.second = gen_fid(h, x.first, x.second.GetIsExtrinsic());}
    for (auto & x : S2.aug_states) {for (auto & a : x.second) {a = gen_aug(h, 1, 2);}}
    S2.body_state = gen_body(h);
    State K = S2;
    S2.SetState(v);
    h.mat("reading back what was written", S2.ToVector(), v, 1e-7);
    auto pb = S2.body_state;
    h.mat("body position", pb.pos_b_in_l, S.body_state.pos_b_in_l); h.mat("body velocity", pb.vel_b_in_l, S.body_state.vel_b_in_l);
    h.mat("body acceleration", pb.acc_b_in_l, S.body_state.acc_b_in_l); h.rot("body orientation", pb.ang_b_to_l, S.body_state.ang_b_to_l);
    h.mat("body angular velocity", pb.ang_vel_b_in_l, S.body_state.ang_vel_b_in_l); h.mat("body angular acceleration", pb.ang_acc_b_in_l, S.body_state.ang_acc_b_in_l);
    for (auto & x : S2.imu_states) {
      auto & o = S.imu_states.at(x.first); auto & k = K.imu_states.at(x.first);
      bool e = o.GetIsExtrinsic(), n = o.GetIsIntrinsic();
      h.mat("IMU position", x.second.pos_i_in_b, e ? o.pos_i_in_b : k.pos_i_in_b); h.rot("IMU orientation", x.second.ang_i_to_b, e ? o.ang_i_to_b : k.ang_i_to_b);
      h.mat("accelerometer bias", x.second.acc_bias, n ? o.acc_bias : k.acc_bias); h.mat("gyroscope bias", x.second.omg_bias, n ? o.omg_bias : k.omg_bias);
    }
    for (auto & x : S2.gps_states) {h.mat("GPS antenna", x.second.pos_a_in_b, x.second.GetIsExtrinsic() ? S.gps_states.at(x.first).pos_a_in_b : K.gps_states.at(x.first).pos_a_in_b);}
    for (auto & x : S2.cam_states) {
      auto & o = x.second.GetIsExtrinsic() ? S.cam_states.at(x.first) : K.cam_states.at(x.first);
      h.mat("camera position", x.second.pos_c_in_b, o.pos_c_in_b); h.rot("camera orientation", x.second.ang_c_to_b, o.ang_c_to_b);
    }
    for (auto & x : S2.fid_states) {
      auto & o = x.second.GetIsExtrinsic() ? S.fid_states.at(x.first) : K.fid_states.at(x.first);
      h.mat("fiducial position", x.second.pos_f_in_l, o.pos_f_in_l); h.rot("fiducial orientation", x.second.ang_f_to_l, o.ang_f_to_l);
    }
    for (auto & x : S2.aug_states) {
      for (unsigned k = 0; k < x.second.size(); ++k) {
        h.mat("clone position", x.second[k].pos_b_in_l, S.aug_states.at(x.first)[k].pos_b_in_l); h.rot("clone orientation", x.second[k].ang_b_to_l, S.aug_states.at(x.first)[k].ang_b_to_l);
      }
    }
    // single states
    BodyState b = gen_body(h), c;
    c.SetState(b.ToVector());
    h.mat("body round trip", c.ToVector(), b.ToVector());
    h.rot("body round trip orientation", c.ang_b_to_l, b.ang_b_to_l);
    CamState m = gen_cam(h, true), m2 = gen_cam(h, true); m2.SetState(m.ToVector());
    h.mat("camera round trip", m2.pos_c_in_b, m.pos_c_in_b); h.rot("camera round trip orientation", m2.ang_c_to_b, m.ang_c_to_b);
    FidState f = gen_fid(h, 1, true), f2 = gen_fid(h, 1, true); f2.SetState(f.ToVector());
    h.mat("fiducial round trip", f2.pos_f_in_l, f.pos_f_in_l); h.rot("fiducial round trip orientation", f2.ang_f_to_l, f.ang_f_to_l);
    // the vector of one sub-state alone, its size under every flag, and setting it
    auto six = [](const Vector3d & a, const Vector3d & b) {VectorXd r(6); r << a, b; return r;};
    bool e = h.b(), n = h.b();
    ImuState i = gen_imu(h, h.b(), h.b());
    ImuState ik = i;
    i.SetIsExtrinsic(e); i.SetIsIntrinsic(n);
    h.ok("IMU flags", i.GetIsExtrinsic() == e && i.GetIsIntrinsic() == n && i.size == (e ? 6u : 0u) + (n ? 6u : 0u));
    h.mat("IMU kept by its flags", six(i.pos_i_in_b, i.acc_bias), six(ik.pos_i_in_b, ik.acc_bias));
    VectorXd iv = i.ToVector(), ie(12);
    ie << i.pos_i_in_b, rv(i.ang_i_to_b), i.acc_bias, i.omg_bias;
    if (h.ok("IMU vector length", iv.size() == static_cast<int>(i.size))) {
      if (e) {h.mat("IMU vector: pose", iv.head(6), ie.head(6), 1e-7);}
      if (n) {h.mat("IMU vector: biases", iv.tail(6), ie.tail(6));}
    }
    VectorXd x6 = h.v(6, 1.5), y6 = h.v(6, 1.5);
    i.SetExtrinsicState(x6);
    h.mat("IMU pose set", six(i.pos_i_in_b, rv(i.ang_i_to_b)), x6, 1e-7);
    h.mat("IMU biases kept", six(i.acc_bias, i.omg_bias), ie.tail(6));
    i.SetIntrinsicState(y6);
    h.mat("IMU biases set", six(i.acc_bias, i.omg_bias), y6);
    h.mat("IMU pose kept", six(i.pos_i_in_b, rv(i.ang_i_to_b)), x6, 1e-7);
    GpsState g = gen_gps(h, h.b());
    g.SetIsExtrinsic(e);
    h.ok("GPS flag", g.GetIsExtrinsic() == e && g.size == (e ? 3u : 0u));
    h.mat("GPS vector", g.ToVector(), g.pos_a_in_b);
    m.SetIsExtrinsic(e);
    h.ok("camera flag", m.GetIsExtrinsic() == e && m.size == (e ? 6u : 0u));
    h.mat("camera vector", m.ToVector(), six(m.pos_c_in_b, rv(m.ang_c_to_b)), 1e-7);
    f.SetIsExtrinsic(e);
    h.ok("fiducial flag", f.GetIsExtrinsic() == e && f.size == (e ? 6u : 0u));
    h.mat("fiducial vector", f.ToVector(), e ? six(f.pos_f_in_l, rv(f.ang_f_to_l)) : VectorXd(0), 1e-7);
    AugState a = gen_aug(h, 1, 2);
    h.mat("clone vector", a.ToVector(), six(a.pos_b_in_l, rv(a.ang_b_to_l)), 1e-7);
    VectorXd be(18);
    be << b.pos_b_in_l, b.vel_b_in_l, b.acc_b_in_l, rv(b.ang_b_to_l), b.ang_vel_b_in_l, b.ang_acc_b_in_l;
    h.mat("body vector", b.ToVector(), be, 1e-7);
  }
}
