// Reference camera model, clone lookup and triangulation; nothing from the library but its plain data types.
#ifndef CAMREF_HPP_
#define CAMREF_HPP_
#include "updref.hpp"
#include "ekf/update/msckf_updater.hpp"

inline Vector2d pinhole(const Vector3d & x) {return Vector2d(x(0) / x(2), x(1) / x(2));}
inline Vector2d lens(const Vector2d & p, const Intrinsics & k)
{
  double x = p(0), y = p(1), s = x * x + y * y, g = 1 + k.k_1 * s + k.k_2 * s * s;
  return Vector2d(g * x + 2 * k.p_1 * x * y + k.p_2 * (s + 2 * x * x), g * y + 2 * k.p_2 * x * y + k.p_1 * (s + 2 * y * y));
}
inline Vector2d normalised(const cv::KeyPoint & p, const Intrinsics & k)
{
  return Vector2d((double(p.pt.x) - k.width / 2) * k.pixel_size / k.f_x, (double(p.pt.y) - k.height / 2) * k.pixel_size / k.f_y);
}
inline cv::KeyPoint pixel(const Vector2d & n, const Intrinsics & k)
{
  cv::KeyPoint p;
  p.pt.x = static_cast<float>(n(0) * k.f_x / k.pixel_size + k.width / 2);
  p.pt.y = static_cast<float>(n(1) * k.f_y / k.pixel_size + k.height / 2);
  return p;
}
inline Intrinsics gen_lens(H & h, bool distorted)
{
  Intrinsics k;
  k.f_x = h.u(0.003, 0.02); k.f_y = h.u(0.003, 0.02); k.pixel_size = h.u(2e-6, 1e-5);
  k.width = 2 * h.i(100, 1000); k.height = 2 * h.i(100, 1000);
  k.k_1 = k.k_2 = k.p_1 = k.p_2 = 0;
  if (distorted) {k.k_1 = h.u(-0.1, 0.1); k.k_2 = h.u(-0.05, 0.05); k.p_1 = h.u(-0.02, 0.02); k.p_2 = h.u(-0.02, 0.02);}
  return k;
}
struct Pose {Vector3d p; Quaterniond q;};
// pose of the body for a frame: a clone, or in between two clones, or in between the last clone and the body
struct Seen {Pose pose; double alpha; int i0, i1; bool body;};      // state offsets of the two poses
inline Pose between(const Pose & a, const Pose & b, double al)
{
  Quaterniond d = qprod(qbar(a.q), b.q);
  if (d.w() < 0) {d.coeffs() *= -1;}
  return {a.p + al * (b.p - a.p), qprod(a.q, qexp(al * qlog(d)))};
}
inline Seen lookup(EKF & e, const State & S, double now, unsigned cam, unsigned frame, double t)
{
  bool own = e.m_augmenting_type == AugmentationType::ALL || (e.m_augmenting_type == AugmentationType::PRIMARY && cam == e.m_primary_camera_id);
  unsigned key = own ? cam : e.m_augmenting_type == AugmentationType::PRIMARY ? e.m_primary_camera_id : 0;
  auto & v = S.aug_states.at(key);
  std::vector<int> at;
  for (auto & x : layout(S)) {if (x.kind == 'a' && x.id == key) {at.push_back(static_cast<int>(x.index));}}
  auto P = [&](size_t k) {return Pose{v[k].pos_b_in_l, v[k].ang_b_to_l};};
  if (own) {
    for (size_t k = 0; k < v.size(); ++k) {if (static_cast<unsigned>(v[k].frame_id) == frame) {return {P(k), 0, at[k], -1, false};}}
    return {};
  }
  if (t < v[0].time) {return {P(0), 0, at[0], -1, false};}
  for (size_t k = 0; k + 1 < v.size(); ++k) {
    if (v[k].time <= t && t < v[k + 1].time) {
      double al = (t - v[k].time) / (v[k + 1].time - v[k].time);
      return {between(P(k), P(k + 1), al), al, at[k], at[k + 1], false};
    }
  }
  size_t L = v.size() - 1;
  double al = now > v[L].time ? (t - v[L].time) / (now - v[L].time) : 0;
  return {between(P(L), Pose{S.body_state.pos_b_in_l, S.body_state.ang_b_to_l}, al), al, at[L], -1, true};
}
// closest point to all viewing rays
inline Vector3d closest(const std::vector<Vector3d> & c, const std::vector<Vector3d> & d)
{
  Matrix3d A = Matrix3d::Zero();
  Vector3d b = Vector3d::Zero();
  for (size_t k = 0; k < c.size(); ++k) {
    Vector3d u = d[k] / d[k].norm();
    Matrix3d M = Matrix3d::Identity() - u * u.transpose();
    A += M;
    b += M * c[k];
  }
  return A.fullPivLu().solve(b);
}
// a filter with a camera, clones (frames 100, 101, ...) close to each other and the updater of that camera
struct Cam {std::unique_ptr<EKF> e; unsigned id; int frames; double first, last;};
inline Cam gen_cam_ekf(H & h, bool root, AugmentationType at, bool calibrated, bool primary, int sensors, bool distorted)
{
  Cam c;
  c.id = static_cast<unsigned>(h.i(31, 40));
  c.e = gen_ekf(h, root, at, sensors, h.i(0, 1));
  EKF & e = *c.e;
  CamState cs = gen_cam(h, calibrated);
  cs.intrinsics = gen_lens(h, distorted);
  cs.pos_c_in_b *= 0.3;
  e.RegisterCamera(c.id, cs, reg_cov(h, 6));
  unsigned key = c.id;
  if (at == AugmentationType::PRIMARY) {key = e.m_primary_camera_id = primary ? c.id : 77;}
  if (at == AugmentationType::TIME || at == AugmentationType::ERROR) {key = 0;}
  BodyState b = gen_body(h);
  double t = h.u(0, 1);
  c.frames = h.i(2, 6);
  c.first = t;
  e.m_max_track_length = 30;
  for (int k = 0; k < c.frames; ++k) {
    e.m_state.body_state = b;
    e.m_state.body_state.pos_b_in_l += h.v3(0.7);
    e.m_state.body_state.ang_b_to_l = qprod(b.ang_b_to_l, qexp(h.v3(0.15)));
    e.m_current_time = t;
    if (key == c.id) {
      e.AugmentStateIfNeeded(c.id, static_cast<unsigned>(100 + k));
    } else {
      AugState a;
      a.frame_id = 100 + k; a.time = t;
      a.pos_b_in_l = e.m_state.body_state.pos_b_in_l; a.ang_b_to_l = e.m_state.body_state.ang_b_to_l;
      e.m_state.aug_states[key].push_back(a);
      e.m_state_size += 6; e.m_aug_state_size += 6;
    }
    c.last = t;
    t += h.u(0.02, 0.1);
  }
  e.m_state.body_state = b;
  e.m_state.body_state.pos_b_in_l += h.v3(0.7);
  e.m_state.body_state.vel_b_in_l = h.v3(0.5); e.m_state.body_state.acc_b_in_l = h.v3(0.5);
  e.m_state.body_state.ang_vel_b_in_l = h.v3(0.2); e.m_state.body_state.ang_acc_b_in_l = h.v3(0.2);
  e.RefreshIndices();
  e.m_current_time = t;
  fill_cov(h, e, root);
  e.m_time_initialized = true;
  e.m_reference_time = 100;
  e.InitializeGravity();
  return c;
}
inline Vector3d camera_centre(const Pose & b, const CamState & c) {return b.p + rotm(b.q) * c.pos_c_in_b;}
inline Matrix3d camera_rot(const Pose & b, const CamState & c) {return rotm(b.q) * rotm(c.ang_c_to_b);}
// a track of one feature through frames f0 .. f0+n-1, all images exact up to noise and float
inline FeatureTrack gen_track(H & h, Cam & c, double now, double zmin, double zmax, double noise, bool distorted, const State & S)
{
  EKF & e = *c.e;
  FeatureTrack tr;
  int f0 = h.i(0, c.frames - 2), n = h.i(2, c.frames - f0);
  const CamState & cs = S.cam_states.at(c.id);
  for (int k = 0; k < n; ++k) {
    FeaturePoint p;
    p.frame_id = static_cast<unsigned>(100 + f0 + k);
    double span = c.last - c.first;
    p.frame_time = h.i(0, 2) ? c.first + span * (f0 + k + h.u(0.1, 0.9)) / c.frames : h.u(c.first - 0.1, now);
    tr.track.push_back(p);
  }
  std::vector<Seen> s;
  for (auto & p : tr.track) {s.push_back(lookup(e, S, now, c.id, p.frame_id, p.frame_time));}
  Vector3d X;
  for (int tries = 0; tries < 200; ++tries) {
    double z = h.u(zmin, zmax);
    X = camera_centre(s[0].pose, cs) + camera_rot(s[0].pose, cs) * Vector3d(h.u(-0.4, 0.4) * z, h.u(-0.4, 0.4) * z, z);
    bool good = true;
    for (auto & q : s) {
      Vector3d x = camera_rot(q.pose, cs).transpose() * (X - camera_centre(q.pose, cs));
      good = good && x(2) > 0.3 && std::abs(x(0)) < 2 * x(2) && std::abs(x(1)) < 2 * x(2);
    }
    if (good) {break;}
  }
  for (size_t k = 0; k < s.size(); ++k) {
    Vector3d x = camera_rot(s[k].pose, cs).transpose() * (X - camera_centre(s[k].pose, cs));
    Vector2d p = pinhole(x);
    if (distorted) {p = lens(p, cs.intrinsics);}
    tr.track[k].key_point = pixel(p + Vector2d(h.u(-noise, noise), h.u(-noise, noise)), cs.intrinsics);
  }
  tr.true_feature_position = X;
  return tr;
}
struct Tri {Vector3d X; double depth; double cond;};
inline Tri triangulated(Cam & c, const State & S, double now, const FeatureTrack & tr)
{
  const CamState & cs = S.cam_states.at(c.id);
  std::vector<Vector3d> o, d;
  for (auto & p : tr.track) {
    Seen s = lookup(*c.e, S, now, c.id, p.frame_id, p.frame_time);
    Vector2d n = normalised(p.key_point, cs.intrinsics);
    o.push_back(camera_centre(s.pose, cs));
    d.push_back(camera_rot(s.pose, cs) * Vector3d(n(0), n(1), 1));
  }
  Matrix3d A = Matrix3d::Zero();
  for (auto & u : d) {A += Matrix3d::Identity() - u * u.transpose() / u.squaredNorm();}
  Eigen::SelfAdjointEigenSolver<Matrix3d> es(A);
  Tri r;
  r.X = closest(o, d);
  r.cond = es.eigenvalues()(2) / std::max(1e-300, es.eigenvalues()(0));
  Seen s0 = lookup(*c.e, S, now, c.id, tr.track[0].frame_id, tr.track[0].frame_time);
  r.depth = (camera_rot(s0.pose, cs).transpose() * (r.X - camera_centre(s0.pose, cs)))(2);
  return r;
}
inline AugmentationType gen_at(H & h)
{
  switch (h.i(0, 3)) {
    case 0: return AugmentationType::PRIMARY;
    case 1: return AugmentationType::TIME;
    default: return AugmentationType::ALL;
  }
}
#endif
