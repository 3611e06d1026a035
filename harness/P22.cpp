#include "h.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "infrastructure/sim/truth_engine_spline.hpp"
#include "infrastructure/debug_logger.hpp"

// central differences of any order-one quantity
template<class F>
static Vector3d slope(F f, double t, double d) {return (8 * (f(t + d) - f(t - d)) - (f(t + 2 * d) - f(t - 2 * d))) / (12 * d);}

// body-frame rate of a sampled orientation
template<class F>
static Vector3d spin(F q, double t, double d)
{
  auto w = [&](double e) {
      Matrix3d r = (q(t - e).conjugate() * q(t + e)).toRotationMatrix();
      return Vector3d(Vector3d(r(2, 1) - r(1, 2), r(0, 2) - r(2, 0), r(1, 0) - r(0, 1)) / 2 / (2 * e));
    };
  return (4 * w(d) - w(2 * d)) / 3;
}

void run(H & h)
{
  auto log = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    Vector3d pf(h.u(0, 2), h.u(0, 2), h.u(0, 2)), af(h.u(0, 2), h.u(0, 2), h.u(0, 2)), po = h.v3(3), ao = h.v3(1);
    double pa = h.u(0.1, 3), aa = h.u(0.1, 1.5), st = h.b() ? h.u(0, 2) : 0, mt = st + h.u(1, 10);
    TruthEngineCyclic e(pf, af, po, ao, pa, aa, st, mt, log);
    double t = st + h.u(0.01, mt - st), s = t - st, d = 1e-3;
    std::ostringstream o;
    o.precision(12);
    o << "cyclic t-start=" << s << " pos freq=" << pf.transpose() << " ang freq=" << af.transpose() << " ang offset=" << ao.transpose();
    h.ctx = o.str();
    Vector3d x, a;
    for (int k = 0; k < 3; ++k) {
      x(k) = po(k) + pa / 2 * (1 - std::cos(2 * M_PI * pf(k) * s));
      a(k) = ao(k) + aa / 2 * (1 - std::cos(2 * M_PI * af(k) * s));
    }
    h.mat("position is a raised cosine from the offset", e.GetBodyPosition(t), x, 1e-10);
    h.mat("angles are a raised cosine from the offset", e.GetBodyRollPitchYaw(t), a, 1e-10);
    Matrix3d R = (Eigen::AngleAxisd(a(2), Vector3d::UnitZ()) * Eigen::AngleAxisd(a(1), Vector3d::UnitY()) * Eigen::AngleAxisd(a(0), Vector3d::UnitX())).toRotationMatrix();
    h.mat("orientation is yaw, then pitch, then roll", e.GetBodyAngularPosition(t).toRotationMatrix(), R, 1e-10);
    if (s > 0.005) {
      h.mat("velocity is the slope of the position", e.GetBodyVelocity(t), slope([&](double u) {return e.GetBodyPosition(u);}, t, d), 1e-6);
      h.mat("acceleration is the slope of the velocity", e.GetBodyAcceleration(t), slope([&](double u) {return e.GetBodyVelocity(u);}, t, d), 1e-5);
      h.mat("angular rate is the body-frame rate of the orientation", e.GetBodyAngularRate(t), spin([&](double u) {return e.GetBodyAngularPosition(u);}, t, d), 1e-6);
      h.mat("angular acceleration is the slope of the angular rate", e.GetBodyAngularAcceleration(t), slope([&](double u) {return e.GetBodyAngularRate(u);}, t, d), 1e-5);
    }
    if (st > 0) {
      double r = st * h.u(-1, 0.999);
      h.ctx = "cyclic before the start";
      h.mat("at rest: position", e.GetBodyPosition(r), po, 1e-12);
      h.mat("at rest: orientation", e.GetBodyAngularPosition(r).toRotationMatrix(), e.GetBodyAngularPosition(st).toRotationMatrix(), 1e-10);
      h.mat("at rest: angles", e.GetBodyRollPitchYaw(r), ao, 1e-12);
      for (auto v : {e.GetBodyVelocity(r), e.GetBodyAcceleration(r), e.GetBodyAngularRate(r), e.GetBodyAngularAcceleration(r)}) {
        h.mat("at rest: no motion", v, Vector3d::Zero(), 0);
      }
    }
    // spline
    int n = h.i(4, 9);
    std::vector<double> ps, as;
    for (int k = 0; k < 3 * n; ++k) {ps.push_back(h.u(-3, 3)); as.push_back(h.u(-1, 1));}
    TruthEngineSpline q(ps, as, {0, 0, 0}, {0, 0, 0}, st, mt, log);
    double T = mt - st;
    t = st + T * h.u(0.05, 0.95);
    d = 1e-3 * T;
    std::ostringstream o2;
    o2.precision(12);
    o2 << "spline of " << n << " poses, start " << st << " end " << mt << " t=" << t;
    h.ctx = o2.str();
    double u = (t - st) / T;
    h.mat("spline position", q.GetBodyPosition(t), Vector3d(q.m_pos_spline(u)), 1e-12);
    // the derivatives of cubic pieces jump only in the third order: coarse steps are exact enough off the knots
    auto smooth = [&]() {
        for (int k = 0; k < q.m_pos_spline.knots().size(); ++k) {if (std::abs(q.m_pos_spline.knots()(k) - u) < 3e-3) {return false;}}
        return true;
      };
    if (smooth()) {
      h.mat("spline velocity is the slope of the position", q.GetBodyVelocity(t), slope([&](double z) {return q.GetBodyPosition(z);}, t, d), 1e-6);
      h.mat("spline acceleration is the slope of the velocity", q.GetBodyAcceleration(t), slope([&](double z) {return q.GetBodyVelocity(z);}, t, d), 1e-6);
    }
    if (st > 0) {
      double r = st * h.u(0, 0.999);
      for (auto v : {q.GetBodyPosition(r), q.GetBodyVelocity(r), q.GetBodyAcceleration(r), q.GetBodyAngularRate(r), q.GetBodyAngularAcceleration(r)}) {
        h.mat("spline before the start: at the origin, at rest", v, Vector3d::Zero(), 0);
      }
    }
  }
}
