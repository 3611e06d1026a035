// Random filters and the documented layout of the stacked state, computed independently of the library.
#ifndef EKFGEN_HPP_
#define EKFGEN_HPP_
#include "h.hpp"
#include "ekf/ekf.hpp"
#include "ekf/types.hpp"
#include "infrastructure/debug_logger.hpp"
#include <memory>

struct Slot {char kind; unsigned int id; unsigned int k; unsigned int index; unsigned int size;};   // kind: b i g c f a

inline std::vector<Slot> layout(const State & s)
{
  std::vector<Slot> r;
  unsigned int at = 18;
  r.push_back({'b', 0, 0, 0, 18});
  for (auto & e : s.imu_states) {
    unsigned int w = (e.second.GetIsExtrinsic() ? 6u : 0u) + (e.second.GetIsIntrinsic() ? 6u : 0u);
    r.push_back({'i', e.first, 0, at, w}); at += w;
  }
  for (auto & e : s.gps_states) {unsigned int w = e.second.GetIsExtrinsic() ? 3 : 0; r.push_back({'g', e.first, 0, at, w}); at += w;}
  for (auto & e : s.cam_states) {unsigned int w = e.second.GetIsExtrinsic() ? 6 : 0; r.push_back({'c', e.first, 0, at, w}); at += w;}
  for (auto & e : s.fid_states) {unsigned int w = e.second.GetIsExtrinsic() ? 6 : 0; r.push_back({'f', e.first, 0, at, w}); at += w;}
  for (auto & e : s.aug_states) {
    for (unsigned int k = 0; k < e.second.size(); ++k) {r.push_back({'a', e.first, k, at, 6}); at += 6;}
  }
  return r;
}
inline unsigned int layout_size(const State & s) {auto l = layout(s); return l.back().index + l.back().size;}

inline std::string show(const State & s)
{
  std::ostringstream o;
  o << "layout[";
  for (auto & x : layout(s)) {o << x.kind << x.id << (x.kind == 'a' ? "." + std::to_string(x.k) : "") << ":" << x.index << "+" << x.size << " ";}
  o << "]";
  return o.str();
}

inline ImuState gen_imu(H & h, bool e, bool in)
{
  ImuState s;
  s.pos_i_in_b = h.v3(); s.ang_i_to_b = h.q(); s.acc_bias = h.v3(0.3); s.omg_bias = h.v3(0.3);
  s.pos_stability = h.u(0.01, 1); s.ang_stability = h.u(0.01, 1); s.acc_bias_stability = h.u(0.01, 1); s.omg_bias_stability = h.u(0.01, 1);
  s.SetIsExtrinsic(e); s.SetIsIntrinsic(in);
  return s;
}
inline GpsState gen_gps(H & h, bool e)
{
  GpsState s;
  s.pos_a_in_b = h.v3(); s.pos_stability = h.u(0.01, 1); s.SetIsExtrinsic(e);
  return s;
}
inline CamState gen_cam(H & h, bool e)
{
  CamState s;
  s.pos_c_in_b = h.v3(); s.ang_c_to_b = h.q(); s.pos_stability = h.u(0.01, 1); s.ang_stability = h.u(0.01, 1);
  s.rate = h.u(5, 40); s.SetIsExtrinsic(e);
  return s;
}
inline FidState gen_fid(H & h, unsigned int id, bool e)
{
  FidState s;
  s.id = static_cast<decltype(s.id)>(id); s.pos_f_in_l = h.v3(3); s.ang_f_to_l = h.q(); s.pos_stability = h.u(0.01, 1); s.ang_stability = h.u(0.01, 1);
  s.SetIsExtrinsic(e);
  return s;
}
inline BodyState gen_body(H & h)
{
  BodyState b;
  b.pos_b_in_l = h.v3(5); b.vel_b_in_l = h.v3(3); b.acc_b_in_l = h.v3(3) + Vector3d(0, 0, 9.8); b.ang_b_to_l = h.q();
  b.ang_vel_b_in_l = h.v3(); b.ang_acc_b_in_l = h.v3();
  return b;
}
inline AugState gen_aug(H & h, unsigned int frame, double t)
{
  AugState a;
  a.frame_id = static_cast<decltype(a.frame_id)>(frame); a.time = t; a.pos_b_in_l = h.v3(5); a.ang_b_to_l = h.q();
  return a;
}
inline EKF::Parameters params(H & h, bool root, AugmentationType at)
{
  EKF::Parameters p;
  p.debug_logger = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
  p.augmenting_type = at;
  p.use_root_covariance = root;
  p.process_noise = h.v(18).cwiseAbs() + 0.01 * VectorXd::Ones(18);
  return p;
}
// a random state with sensors of every kind, random ids, flags and clone counts (not an EKF)
inline State gen_state(H & h, int mx = 3)
{
  State s;
  s.body_state = gen_body(h);
  int n;
  n = h.i(0, mx); for (int k = 0; k < n; ++k) {s.imu_states[h.i(1, 40)] = gen_imu(h, h.b(), h.b());}
  n = h.i(0, mx); for (int k = 0; k < n; ++k) {s.gps_states[h.i(1, 40)] = gen_gps(h, h.b());}
  n = h.i(0, mx); for (int k = 0; k < n; ++k) {s.cam_states[h.i(1, 40)] = gen_cam(h, h.b());}
  n = h.i(0, mx); for (int k = 0; k < n; ++k) {unsigned int id = h.i(1, 40); s.fid_states[id] = gen_fid(h, id, h.b());}
  n = h.i(0, mx);
  for (int k = 0; k < n; ++k) {
    unsigned int id = h.i(0, 40);
    s.aug_states[id].clear();
    int c = h.i(0, 3);
    for (int q = 0; q < c; ++q) {s.aug_states[id].push_back(gen_aug(h, q, q));}
  }
  return s;
}
// register one random sensor of the given kind; returns false when the id was taken
inline MatrixXd reg_cov(H & h, int n) {return h.diag(n);}

inline void fill_cov(H & h, EKF & e, bool root)
{
  int n = static_cast<int>(layout_size(e.m_state));
  e.m_cov = root ? h.upper(n) : h.psd(n);
}
inline MatrixXd P_of(const EKF & e, bool root) {return root ? MatrixXd(e.m_cov.transpose() * e.m_cov) : e.m_cov;}

inline void add_random_sensors(H & h, EKF & e, int n)
{
  for (int k = 0; k < n; ++k) {
    unsigned int id = static_cast<unsigned int>(h.i(1, 30));
    switch (h.i(0, 3)) {
      case 0: {bool x = h.b(), y = h.b(); e.RegisterIMU(id, gen_imu(h, x, y), reg_cov(h, 12)); break;}
      case 1: {Matrix3d c = reg_cov(h, 3); e.RegisterGPS(id, gen_gps(h, h.b()), c); break;}
      case 2: e.RegisterCamera(id, gen_cam(h, h.b()), reg_cov(h, 6)); break;
      default: e.RegisterFiducial(gen_fid(h, id, h.b()), reg_cov(h, 6));
    }
  }
}
// a filter with random sensors, clones of several cameras, random covariance
inline std::unique_ptr<EKF> gen_ekf(H & h, bool root, AugmentationType at = AugmentationType::ALL, int sensors = 5, int clones = 4)
{
  auto p = params(h, root, at);
  std::unique_ptr<EKF> e(new EKF(p));
  e->m_state.body_state = gen_body(h);
  add_random_sensors(h, *e, sensors);
  if (at == AugmentationType::ALL) {
    for (int k = 0; k < clones; ++k) {
      e->m_state.body_state = gen_body(h);
      e->AugmentStateIfNeeded(static_cast<unsigned int>(h.i(1, 3)), static_cast<unsigned int>(100 + k));
    }
  }
  fill_cov(h, *e, root);
  return e;
}
#endif
