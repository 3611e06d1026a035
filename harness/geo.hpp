// WGS84 conversions, own implementation (iterative inverse)
#ifndef GEO_HPP_
#define GEO_HPP_
#include "h.hpp"
namespace geo
{
const double A = 6378137.0, F = 3.35281066474748071998e-3, E2 = (2 - F) * F, D = M_PI / 180;
inline Vector3d ecef(const Vector3d & l)
{
  if (!(l(0) >= -90 && l(0) <= 90 && l(1) >= -180 && l(1) <= 180)) {return Vector3d::Zero();}
  double s = std::sin(l(0) * D), c = std::cos(l(0) * D), N = A / std::sqrt(1 - E2 * s * s);
  return Vector3d((N + l(2)) * c * std::cos(l(1) * D), (N + l(2)) * c * std::sin(l(1) * D), (N * (1 - E2) + l(2)) * s);
}
inline Matrix3d rot(const Vector3d & r)      // rows: east, north, up
{
  double sa = std::sin(r(0) * D), ca = std::cos(r(0) * D), so = std::sin(r(1) * D), co = std::cos(r(1) * D);
  Matrix3d m;
  m << -so, co, 0, -sa * co, -sa * so, ca, ca * co, ca * so, sa;
  return m;
}
inline Vector3d enu(const Vector3d & x, const Vector3d & ref) {return rot(ref) * (x - ecef(ref));}
inline Vector3d from_enu(const Vector3d & x, const Vector3d & ref) {return ecef(ref) + rot(ref).transpose() * x;}
inline Vector3d lla(const Vector3d & x)
{
  double p = std::hypot(x(0), x(1)), lat = std::atan2(x(2), p * (1 - E2)), N = A, h = 0;
  for (int k = 0; k < 60; ++k) {
    double s = std::sin(lat);
    N = A / std::sqrt(1 - E2 * s * s);
    lat = std::atan2(x(2) + E2 * N * s, p);
  }
  double s = std::sin(lat), c = std::cos(lat);
  N = A / std::sqrt(1 - E2 * s * s);
  h = p * c + x(2) * s - A * A / N;
  return Vector3d(lat / D, std::atan2(x(1), x(0)) / D, h);
}
inline Vector3d to_local(const Vector3d & e, double a) {return Vector3d(std::cos(a) * e(0) - std::sin(a) * e(1), std::sin(a) * e(0) + std::cos(a) * e(1), e(2));}
inline Vector3d to_enu(const Vector3d & l, double a) {return Vector3d(std::cos(a) * l(0) + std::sin(a) * l(1), -std::sin(a) * l(0) + std::cos(a) * l(1), l(2));}
inline Vector3d gen(H & h, bool near_pole = true)
{
  double la = h.i(0, 5) ? h.u(-89.5, 89.5) : (h.b() ? 0.0 : h.u(-1e-3, 1e-3)), lo = h.i(0, 5) ? h.u(-179.9, 179.9) : (h.b() ? 0.0 : (h.b() ? 179.999 : -179.999));
  double al = h.i(0, 3) ? h.u(-400, 9000) : (h.b() ? 0.0 : h.u(9000, 4e5));
  if (near_pole && h.i(0, 7) == 0) {la = h.b() ? h.u(89.5, 89.99999) : h.u(-89.99999, -89.5);}
  return Vector3d(la, lo, al);
}
}
#endif
