#include "ekfgen.hpp"

static void check_state(H & h, const State & S, const State & T, const VectorXd & v)
{
  auto seg = [&](unsigned int at) {return Vector3d(v(at), v(at + 1), v(at + 2));};
  const BodyState & a = S.body_state; const BodyState & b = T.body_state;
  h.mat("body position", b.pos_b_in_l, a.pos_b_in_l + seg(0));
  h.mat("body velocity", b.vel_b_in_l, a.vel_b_in_l + seg(3));
  h.mat("body acceleration", b.acc_b_in_l, a.acc_b_in_l + seg(6));
  h.quat("body orientation", b.ang_b_to_l, qprod(a.ang_b_to_l, qexp(seg(9))));
  h.mat("body angular velocity", b.ang_vel_b_in_l, a.ang_vel_b_in_l + seg(12));
  h.mat("body angular acceleration", b.ang_acc_b_in_l, a.ang_acc_b_in_l + seg(15));
  h.ok("same sensors", S.imu_states.size() == T.imu_states.size() && S.gps_states.size() == T.gps_states.size() &&
    S.cam_states.size() == T.cam_states.size() && S.fid_states.size() == T.fid_states.size() && S.aug_states.size() == T.aug_states.size());
  for (auto & s : layout(S)) {
    unsigned int at = s.index;
    if (s.kind == 'i') {
      auto & x = S.imu_states.at(s.id); auto & y = T.imu_states.at(s.id);
      bool e = x.GetIsExtrinsic(), n = x.GetIsIntrinsic();
      h.mat("IMU position", y.pos_i_in_b, e ? Vector3d(x.pos_i_in_b + seg(at)) : x.pos_i_in_b);
      h.quat("IMU orientation", y.ang_i_to_b, e ? qprod(x.ang_i_to_b, qexp(seg(at + 3))) : x.ang_i_to_b);
      unsigned int k = at + (e ? 6 : 0);
      h.mat("IMU accelerometer bias", y.acc_bias, n ? Vector3d(x.acc_bias + seg(k)) : x.acc_bias);
      h.mat("IMU gyroscope bias", y.omg_bias, n ? Vector3d(x.omg_bias + seg(k + 3)) : x.omg_bias);
    } else if (s.kind == 'g') {
      auto & x = S.gps_states.at(s.id); auto & y = T.gps_states.at(s.id);
      h.mat("GPS antenna position", y.pos_a_in_b, s.size ? Vector3d(x.pos_a_in_b + seg(at)) : x.pos_a_in_b);
    } else if (s.kind == 'c') {
      auto & x = S.cam_states.at(s.id); auto & y = T.cam_states.at(s.id);
      h.mat("camera position", y.pos_c_in_b, s.size ? Vector3d(x.pos_c_in_b + seg(at)) : x.pos_c_in_b);
      h.quat("camera orientation", y.ang_c_to_b, s.size ? qprod(x.ang_c_to_b, qexp(seg(at + 3))) : x.ang_c_to_b);
    } else if (s.kind == 'f') {
      auto & x = S.fid_states.at(s.id); auto & y = T.fid_states.at(s.id);
      h.mat("fiducial position", y.pos_f_in_l, s.size ? Vector3d(x.pos_f_in_l + seg(at)) : x.pos_f_in_l);
      h.quat("fiducial orientation", y.ang_f_to_l, s.size ? qprod(x.ang_f_to_l, qexp(seg(at + 3))) : x.ang_f_to_l);
    } else if (s.kind == 'a') {
      if (!h.ok("same clones", S.aug_states.at(s.id).size() == T.aug_states.at(s.id).size())) {continue;}
      auto & x = S.aug_states.at(s.id)[s.k]; auto & y = T.aug_states.at(s.id)[s.k];
      h.mat("clone position", y.pos_b_in_l, x.pos_b_in_l + seg(at));
      h.quat("clone orientation", y.ang_b_to_l, qprod(x.ang_b_to_l, qexp(seg(at + 3))));
    }
  }
}

void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    State S = gen_state(h);
    h.ctx = show(S);
    State T = S;
    VectorXd v = h.v(static_cast<int>(layout_size(S)));
    T += v;
    check_state(h, S, T, v);
  }
  // each kind of container on its own takes the part of the correction it is given
  for (long k = 0; k < h.iters; ++k, ++h.cases) {
    State S = gen_state(h), T = S, Z;
    S.aug_states.clear(); S.gps_states.clear(); S.fid_states.clear(); T = S;
    VectorXd v = h.v(static_cast<int>(layout_size(S)));
    auto part = [&](char kind) {
        unsigned int lo = 0, n = 0;
        for (auto & s : layout(S)) {if (s.kind == kind) {if (n == 0) {lo = s.index;} n += s.size;}}
        return VectorXd(v.segment(lo, n));
      };
    VectorXd pi = part('i'), pc = part('c'), pb = v.head(18);
    T.body_state += pb;
    T.imu_states += pi;
    T.cam_states += pc;
    h.ctx = show(S) + " (per container)";
    check_state(h, S, T, v);
  }
  // one IMU, and one list of clones, on their own
  for (long k = 0; k < h.iters; ++k, ++h.cases) {
    State S = gen_state(h), T = S;
    h.ctx = show(S) + " (one IMU, one list of clones)";
    for (auto & e : T.imu_states) {
      ImuState x = e.second;
      bool ex = x.GetIsExtrinsic(), in = x.GetIsIntrinsic();
      VectorXd v = h.v((ex ? 6 : 0) + (in ? 6 : 0));
      e.second += v;
      unsigned int at = ex ? 6 : 0;
      h.mat("IMU position", e.second.pos_i_in_b, ex ? Vector3d(x.pos_i_in_b + v.segment<3>(0)) : x.pos_i_in_b);
      h.quat("IMU orientation", e.second.ang_i_to_b, ex ? qprod(x.ang_i_to_b, qexp(v.segment<3>(3))) : x.ang_i_to_b);
      h.mat("IMU accelerometer bias", e.second.acc_bias, in ? Vector3d(x.acc_bias + v.segment<3>(at)) : x.acc_bias);
      h.mat("IMU gyroscope bias", e.second.omg_bias, in ? Vector3d(x.omg_bias + v.segment<3>(at + 3)) : x.omg_bias);
    }
    for (auto & e : T.aug_states) {
      std::vector<AugState> x = e.second;
      VectorXd v = h.v(6 * static_cast<int>(x.size()));
      e.second += v;
      if (!h.ok("same clones", x.size() == e.second.size())) {continue;}
      for (size_t i = 0; i < x.size(); ++i) {
        h.mat("clone position", e.second[i].pos_b_in_l, x[i].pos_b_in_l + v.segment<3>(6 * i));
        h.quat("clone orientation", e.second[i].ang_b_to_l, qprod(x[i].ang_b_to_l, qexp(v.segment<3>(6 * i + 3))));
        h.ok("clone time and frame kept", e.second[i].time == x[i].time && e.second[i].frame_id == x[i].frame_id);
      }
    }
  }
  // a state added to a state of the same sensors and clones
  for (long k = 0; k < h.iters; ++k, ++h.cases) {
    State S = gen_state(h), O = S;
    h.ctx = show(S) + " (state plus state)";
    O += h.v(static_cast<int>(layout_size(S)));
    O.body_state.acc_b_in_l = h.v3(); O.body_state.ang_acc_b_in_l = h.v3();
    for (auto & e : O.imu_states) {e.second.pos_i_in_b = h.v3(); e.second.ang_i_to_b = h.q(); e.second.acc_bias = h.v3(); e.second.omg_bias = h.v3();}
    for (auto & e : O.gps_states) {e.second.pos_a_in_b = h.v3();}
    for (auto & e : O.cam_states) {e.second.pos_c_in_b = h.v3(); e.second.ang_c_to_b = h.q();}
    for (auto & e : O.fid_states) {e.second.pos_f_in_l = h.v3(); e.second.ang_f_to_l = h.q();}
    State T = S, P = O;
    T += P;
    auto body = [&](const BodyState & a, const BodyState & b, const BodyState & c) {
        h.mat("body position", c.pos_b_in_l, a.pos_b_in_l + b.pos_b_in_l);
        h.mat("body velocity", c.vel_b_in_l, a.vel_b_in_l + b.vel_b_in_l);
        h.mat("body acceleration", c.acc_b_in_l, a.acc_b_in_l + b.acc_b_in_l);
        h.quat("body orientation", c.ang_b_to_l, qprod(b.ang_b_to_l, a.ang_b_to_l));
        h.mat("body angular velocity", c.ang_vel_b_in_l, a.ang_vel_b_in_l + b.ang_vel_b_in_l);
        h.mat("body angular acceleration", c.ang_acc_b_in_l, a.ang_acc_b_in_l + b.ang_acc_b_in_l);
      };
    body(S.body_state, O.body_state, T.body_state);
    BodyState lone = S.body_state;
    lone += O.body_state;
    body(S.body_state, O.body_state, lone);
    if (!h.ok("same sensors", S.imu_states.size() == T.imu_states.size() && S.gps_states.size() == T.gps_states.size() &&
      S.cam_states.size() == T.cam_states.size() && S.fid_states.size() == T.fid_states.size() && S.aug_states.size() == T.aug_states.size())) {continue;}
    for (auto & e : S.imu_states) {
      auto & a = e.second; auto & b = O.imu_states.at(e.first); auto & c = T.imu_states.at(e.first);
      h.mat("IMU position", c.pos_i_in_b, a.pos_i_in_b + b.pos_i_in_b);
      h.quat("IMU orientation", c.ang_i_to_b, qprod(b.ang_i_to_b, a.ang_i_to_b));
      h.mat("IMU accelerometer bias", c.acc_bias, a.acc_bias + b.acc_bias);
      h.mat("IMU gyroscope bias", c.omg_bias, a.omg_bias + b.omg_bias);
    }
    for (auto & e : S.gps_states) {
      h.mat("GPS antenna position", T.gps_states.at(e.first).pos_a_in_b, e.second.pos_a_in_b + O.gps_states.at(e.first).pos_a_in_b);
    }
    for (auto & e : S.cam_states) {
      auto & a = e.second; auto & b = O.cam_states.at(e.first); auto & c = T.cam_states.at(e.first);
      h.mat("camera position", c.pos_c_in_b, a.pos_c_in_b + b.pos_c_in_b);
      h.quat("camera orientation", c.ang_c_to_b, qprod(b.ang_c_to_b, a.ang_c_to_b));
    }
    for (auto & e : S.fid_states) {
      auto & a = e.second; auto & b = O.fid_states.at(e.first); auto & c = T.fid_states.at(e.first);
      h.mat("fiducial position", c.pos_f_in_l, a.pos_f_in_l + b.pos_f_in_l);
      h.quat("fiducial orientation", c.ang_f_to_l, qprod(b.ang_f_to_l, a.ang_f_to_l));
    }
    for (auto & e : S.aug_states) {
      auto & b = O.aug_states.at(e.first); auto & c = T.aug_states.at(e.first);
      if (!h.ok("same clones", c.size() == e.second.size())) {continue;}
      for (size_t i = 0; i < c.size(); ++i) {
        h.mat("clone position", c[i].pos_b_in_l, e.second[i].pos_b_in_l + b[i].pos_b_in_l);
        h.quat("clone orientation", c[i].ang_b_to_l, qprod(b[i].ang_b_to_l, e.second[i].ang_b_to_l));
      }
    }
  }
}
