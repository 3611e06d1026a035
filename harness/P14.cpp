#include "ekfgen.hpp"
#include "geo.hpp"
#include "utility/gps_helper.hpp"
#include "utility/math_helper.hpp"

struct Fit {double ang, pos_std, ang_std, apart; Matrix3d R; Vector3d t;};

static Vector3d mean(const std::vector<Vector3d> & v)
{
  Vector3d m = Vector3d::Zero();
  for (auto & x : v) {m += x;}
  return m / static_cast<double>(v.size());
}
// closed form planar fit: tgt = R src + t
static Fit fit(const std::vector<Vector3d> & tgt, const std::vector<Vector3d> & src)
{
  Fit f;
  Vector3d ct = mean(tgt), cs = mean(src);
  double dot = 0, crs = 0;
  for (unsigned k = 0; k < tgt.size(); ++k) {
    Vector3d a = src[k] - cs, b = tgt[k] - ct;
    dot += a(0) * b(0) + a(1) * b(1);
    crs += a(0) * b(1) - a(1) * b(0);
  }
  f.ang = std::atan2(crs, dot);
  f.R = Matrix3d::Identity();
  f.R(0, 0) = f.R(1, 1) = std::cos(f.ang); f.R(0, 1) = -std::sin(f.ang); f.R(1, 0) = std::sin(f.ang);
  f.t = ct - f.R * cs;
  std::vector<Vector3d> e;
  double ss = 0, n = 0, sq = 0;
  for (unsigned k = 0; k < tgt.size(); ++k) {
    e.push_back(tgt[k] - (f.R * src[k] + f.t));
    double b = (tgt[k] - ct).norm();
    if (b > e.back().norm()) {ss += std::pow(e.back().norm() / b, 2); n += 1;}
  }
  Vector3d em = mean(e);
  for (auto & x : e) {sq += (x - em).squaredNorm();}
  f.pos_std = std::sqrt(sq) / static_cast<double>(e.size());
  f.apart = n;
  f.ang_std = n > 0 ? std::sqrt(ss) / n : 0;
  return f;
}
static double maxdist(const std::vector<Vector3d> & v)
{
  double m = 0;
  for (auto & a : v) {
    for (auto & b : v) {
      double x = static_cast<int>(a(0)) - static_cast<int>(b(0)), y = static_cast<int>(a(1)) - static_cast<int>(b(1));
      m = std::max(m, std::hypot(x, y));
    }
  }
  return m;
}

void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    // helpers
    int n = h.i(1, 12);
    std::vector<Vector3d> s, t;
    std::vector<double> w;
    double th = h.u(-3.1, 3.1), noise = h.i(0, 2) ? h.u(0, 0.5) : 0.0;
    Vector3d tr = h.v3(50);
    bool line = h.i(0, 5) == 0;
    Vector3d dir = h.v3();
    for (int k = 0; k < n; ++k) {
      s.push_back(line ? Vector3d(dir * h.u(-20, 20)) : h.v3(20));
      t.push_back(geo::to_local(s.back(), th) + tr + h.v3(noise));
      w.push_back(h.u(0.1, 3));
    }
    h.ctx = "n=" + std::to_string(n) + " angle=" + std::to_string(th) + " noise=" + std::to_string(noise);
    Vector3d wm = Vector3d::Zero();
    double ws = 0, sq = 0;
    for (int k = 0; k < n; ++k) {wm += w[k] * s[k]; ws += w[k];}
    h.mat("weighted mean", average_vectors(s, w), wm / ws, 1e-12);
    h.mat("mean", average_vectors(s), mean(s), 1e-12);
    for (auto & x : s) {sq += (x - mean(s)).squaredNorm();}
    h.near("deviation from the mean", mean_standard_deviation(s), std::sqrt(sq) / n, 1e-10);
    h.near("largest planar distance", maximum_distance(s), maxdist(s), 1e-12);
    Eigen::Affine3d T = Eigen::Affine3d::Identity();
    T.translation() = Vector3d(1, 2, 3);
    double ps = -7, as = -8;
    auto s2 = s;
    if (h.i(0, 9) == 0) {s2.pop_back();}
    bool ok = kabsch_2d(t, s2, T, ps, as);
    h.ok("planar fit is made exactly for four or more pairs", ok == (n >= 4 && s2.size() == t.size()));
    if (!ok) {
      h.ok("a refused fit leaves its outputs alone", ps == -7 && as == -8 && T.linear() == Matrix3d::Identity() && T.translation() == Vector3d(1, 2, 3));
    } else if (!(line && std::hypot(dir(0), dir(1)) < 0.05)) {
      Fit f = fit(t, s2);
      h.mat("planar fit: rotation", T.linear(), f.R, 1e-7);
      h.mat("planar fit: translation", T.translation(), f.t, 1e-6);
      h.near("planar fit: position deviation", ps, f.pos_std, 1e-6);
      h.near("planar fit: angle deviation", as, f.ang_std, 1e-6);
      h.near("planar fit: heading", affine_angle(T), f.ang, 1e-7);
      if (noise == 0) {h.mat("an exact motion is recovered", T.linear(), Matrix3d((Matrix3d() << std::cos(th), -std::sin(th), 0, std::sin(th), std::cos(th), 0, 0, 0, 1).finished()), 1e-7);}
    }
    // initialisation
    auto p = params(h, h.b(), AugmentationType::NONE);
    int ty = h.i(0, 5);
    p.gps_init_type = ty == 0 ? GpsInitType::CONSTANT : (ty < 3 ? GpsInitType::BASELINE_DIST : GpsInitType::ERROR_THRESHOLD);
    p.gps_init_baseline_dist = h.u(1, 40);
    p.gps_init_pos_thresh = h.u(0.02, 1);
    p.gps_init_ang_thresh = h.u(0.001, 0.1);
    EKF e(p);
    h.ok("a constant reference is known from the start, others are not", e.IsLlaInitialized() == (ty == 0));
    Vector3d ref = geo::gen(h, false);
    double head = h.u(-3.1, 3.1), nz = h.i(0, 3) ? h.u(0, 0.4) : 0;
    std::vector<Vector3d> xyz, ec;
    std::vector<double> tm;
    bool latched = ty == 0;
    if (latched && h.b()) {e.SetGpsReference(ref, head);}
    Vector3d rp = e.m_pos_e_in_g;
    double ra = e.m_ang_l_to_e;
    double spread = h.i(0, 4) ? h.u(1, 30) : 0;       // 0: the vehicle stands still
    if (spread == 0) {nz = h.u(0.01, 0.4);}
    Vector3d rest = h.v3(20);
    for (int k = 0; k < 14; ++k) {
      e.m_state.body_state.pos_b_in_l = spread > 0 ? h.v3(spread) : rest;
      Vector3d g = geo::lla(geo::from_enu(geo::to_enu(e.m_state.body_state.pos_b_in_l + h.v3(nz), head), ref));
      std::ostringstream o;
      o.precision(12);
      o << "mode=" << static_cast<int>(p.gps_init_type) << " sample " << k << " ref=" << ref.transpose() << " heading=" << head << " noise=" << nz;
      h.ctx = o.str();
      State S = e.m_state;
      e.AttemptGpsInitialization(k * 0.5, g);
      xyz.push_back(S.body_state.pos_b_in_l); ec.push_back(geo::ecef(g)); tm.push_back(k * 0.5);
      h.ok("the sample is stored", e.GetGpsTimeVector() == tm && e.GetGpsXyzVector() == xyz && e.GetGpsEcefVector().size() == ec.size());
      if (e.GetGpsEcefVector().size() == ec.size()) {for (unsigned j = 0; j < ec.size(); ++j) {h.mat("the sample is stored (position)", e.GetGpsEcefVector()[j], ec[j], 1e-13);}}
      h.mat("the estimate is left alone", e.m_state.body_state.ToVector(), S.body_state.ToVector(), 0);
      if (xyz.size() < 4) {
        h.ok("nothing happens with fewer than four samples", e.IsLlaInitialized() == latched && e.m_pos_e_in_g == rp && e.m_ang_l_to_e == ra);
        continue;
      }
      Vector3d r0 = geo::lla(mean(ec));
      std::vector<Vector3d> en;
      for (auto & x : ec) {en.push_back(geo::enu(x, r0));}
      Fit f = fit(xyz, en);
      double md = maxdist(en);
      bool base = p.gps_init_type == GpsInitType::BASELINE_DIST, err = p.gps_init_type == GpsInitType::ERROR_THRESHOLD;
      bool unsure = false;
      for (auto & x : en) {unsure |= base && (std::abs(x(0) - std::round(x(0))) < 1e-4 || std::abs(x(1) - std::round(x(1))) < 1e-4);}
      double tt = std::tan(p.gps_init_ang_thresh);
      unsure |= err && (std::abs(f.pos_std - p.gps_init_pos_thresh) < 1e-4 || std::abs(f.ang_std - tt) < 1e-5 || (f.ang_std < 1e-5 && f.apart > 0));
      unsure |= std::abs(md - p.gps_init_baseline_dist) < 1e-6 && base;
      if (unsure) {latched = e.IsLlaInitialized(); rp = e.m_pos_e_in_g; ra = e.m_ang_l_to_e; continue;}
      bool now = (base && md > p.gps_init_baseline_dist) || (err && f.pos_std < p.gps_init_pos_thresh && f.ang_std != 0 && f.ang_std < tt);
      h.ok("the reference is found exactly when its mode's condition holds, and never lost", e.IsLlaInitialized() == (latched || now));
      if (now) {
        Vector3d want = geo::from_enu(-(f.R.transpose() * f.t), r0);
        h.near("the reference position is the local origin of the fit", (geo::ecef(e.m_pos_e_in_g) - want).norm(), 0, 1e-4);
        h.near("the reference heading is the angle of the fit", std::cos(e.m_ang_l_to_e - f.ang), 1, 1e-9);
        h.near("the reference heading is the angle of the fit (sine)", std::sin(e.m_ang_l_to_e - f.ang), 0, 1e-6);
        if (nz == 0) {h.near("the true reference is recovered", (geo::ecef(e.m_pos_e_in_g) - geo::ecef(ref)).norm(), 0, 0.05);}
        // the new reference maps every sample close to its local position as the fit does
        for (unsigned j = 0; j < en.size(); ++j) {
          Vector3d l = enu_to_local(lla_to_enu(geo::lla(ec[j]), e.GetReferenceLLA()), e.GetReferenceAngle());
          h.near("samples map to local positions through the reference as in the fit", (l - (f.R * en[j] + f.t)).norm(), 0, 1e-2);
        }
        latched = true;
      } else {
        h.ok("otherwise the reference is kept", e.m_pos_e_in_g == rp && e.m_ang_l_to_e == ra);
      }
      rp = e.m_pos_e_in_g; ra = e.m_ang_l_to_e;
    }
  }
}
