// Reference measurement update on a copy of the estimate.
#ifndef UPDREF_HPP_
#define UPDREF_HPP_
#include "ekfgen.hpp"
// derivative with respect to the stacked state (positions and rotation vectors added), computed numerically
inline void bump(State & s, int k, double d)
{
  auto rv = [&](Quaterniond & q, int i) {Vector3d v = qlog(q); v(i) += d; q = qexp(v);};
  for (auto & x : layout(s)) {
    int i = k - static_cast<int>(x.index);
    if (i < 0 || i >= static_cast<int>(x.size)) {continue;}
    switch (x.kind) {
      case 'b': {
          BodyState & b = s.body_state;
          if (i < 3) {b.pos_b_in_l(i) += d;} else if (i < 6) {b.vel_b_in_l(i - 3) += d;} else if (i < 9) {b.acc_b_in_l(i - 6) += d;}
          else if (i < 12) {rv(b.ang_b_to_l, i - 9);} else if (i < 15) {b.ang_vel_b_in_l(i - 12) += d;} else {b.ang_acc_b_in_l(i - 15) += d;}
          return;}
      case 'i': {
          ImuState & m = s.imu_states[x.id];
          if (!m.GetIsExtrinsic()) {i += 6;}
          if (i < 3) {m.pos_i_in_b(i) += d;} else if (i < 6) {rv(m.ang_i_to_b, i - 3);} else if (i < 9) {m.acc_bias(i - 6) += d;} else {m.omg_bias(i - 9) += d;}
          return;}
      case 'g': s.gps_states[x.id].pos_a_in_b(i) += d; return;
      case 'c': if (i < 3) {s.cam_states[x.id].pos_c_in_b(i) += d;} else {rv(s.cam_states[x.id].ang_c_to_b, i - 3);} return;
      case 'f': if (i < 3) {s.fid_states[x.id].pos_f_in_l(i) += d;} else {rv(s.fid_states[x.id].ang_f_to_l, i - 3);} return;
      default: {AugState & a = s.aug_states[x.id][x.k]; if (i < 3) {a.pos_b_in_l(i) += d;} else {rv(a.ang_b_to_l, i - 3);} return;}
    }
  }
}
template<class F> MatrixXd numjac(const State & S, int n, F f)
{
  MatrixXd J;
  for (int k = 0; k < n; ++k) {
    double d = 1e-4;
    auto at = [&](double x) {State s = S; bump(s, k, x); return VectorXd(f(s));};
    VectorXd c = (8 * (at(d) - at(-d)) - (at(2 * d) - at(-2 * d))) / (12 * d);
    if (k == 0) {J = MatrixXd::Zero(c.size(), n);}
    J.col(k) = c;
  }
  return J;
}
struct Ref {State S; MatrixXd P;};
inline void kalman(Ref & r, const MatrixXd & H_, const VectorXd & res, const MatrixXd & N)
{
  MatrixXd K = r.P * H_.transpose() * (H_ * r.P * H_.transpose() + N).inverse();
  MatrixXd A = MatrixXd::Identity(r.P.rows(), r.P.rows()) - K * H_;
  r.P = A * r.P * A.transpose() + K * N * K.transpose();
  VectorXd d = K * res;
  r.S += d;                      // composition itself is P03
}
inline void compare(H & h, const std::string & what, const EKF & e, bool root, const Ref & r, double tol = 1e-7)
{
  h.mat(what + ": state", const_cast<EKF &>(e).m_state.ToVector(), const_cast<State &>(r.S).ToVector(), tol);
  h.mat(what + ": body position", e.m_state.body_state.pos_b_in_l, r.S.body_state.pos_b_in_l, tol);
  h.rot(what + ": body orientation", e.m_state.body_state.ang_b_to_l, r.S.body_state.ang_b_to_l, tol);
  h.mat(what + ": covariance", P_of(e, root), r.P, tol);
}
#endif
