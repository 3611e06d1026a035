#include "geo.hpp"
#include "utility/gps_helper.hpp"

void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    Vector3d l = geo::gen(h), r = geo::gen(h);
    std::ostringstream o;
    o.precision(15);
    o << "lla=" << l.transpose() << " ref=" << r.transpose();
    h.ctx = o.str();
    Vector3d x = lla_to_ecef(l);
    h.mat("geodetic to ECEF is the WGS84 ellipsoid", x, geo::ecef(l), 1e-13);
    Vector3d back = ecef_to_lla(geo::ecef(l));
    h.near("ECEF to geodetic: the same point again", (geo::ecef(back) - geo::ecef(l)).norm(), 0, 1e-5);
    h.near("ECEF to geodetic: latitude", back(0), l(0), 1e-11);
    h.near("ECEF to geodetic: altitude", back(2), l(2), 1e-6);
    double dl = std::fmod(back(1) - l(1) + 540, 360) - 180;
    h.near("ECEF to geodetic: longitude", dl, 0, 1e-8);
    h.ok("ECEF to geodetic: ranges", back(0) >= -90 && back(0) <= 90 && back(1) >= -180 && back(1) <= 180);
    Vector3d y = x + h.v3(h.b() ? 1e2 : 1e6);
    h.mat("ECEF to ENU", ecef_to_enu(y, r), geo::enu(y, r), 1e-12);
    Vector3d e = h.v3(h.b() ? 50 : 1e5);
    h.mat("ENU to ECEF", enu_to_ecef(e, r), geo::from_enu(e, r), 1e-13);
    h.mat("geodetic to ENU", lla_to_enu(l, r), geo::enu(geo::ecef(l), r), 1e-12);
    h.mat("ENU to ECEF and back", ecef_to_enu(enu_to_ecef(e, r), r), e, 1e-6);
    Vector3d g = enu_to_lla(e, r);
    h.near("ENU to geodetic: the same point", (geo::ecef(g) - geo::from_enu(e, r)).norm(), 0, 1e-5);
    h.near("ENU to geodetic and back", (lla_to_enu(g, r) - e).norm(), 0, 1e-5);
    h.near("distances are kept", ecef_to_enu(y, r).norm(), (y - geo::ecef(r)).norm(), 1e-12);
    double a = h.u(-7, 7);
    h.mat("local to ENU", local_to_enu(e, a), geo::to_enu(e, a), 1e-12);
    h.mat("ENU to local", enu_to_local(e, a), geo::to_local(e, a), 1e-12);
    h.mat("local to ENU and back", enu_to_local(local_to_enu(e, a), a), e, 1e-12);
    double m = h.u(-1e6, 1e6);
    h.near("metres to degrees", wgs84_m_to_deg(m) * geo::D * geo::A, m, 1e-12);
    Vector3d bad = l;
    switch (h.i(0, 3)) {
      case 0: bad(0) = 90 + h.u(1e-9, 50); break;
      case 1: bad(0) = -90 - h.u(1e-9, 50); break;
      case 2: bad(1) = 180 + h.u(1e-9, 50); break;
      default: bad(1) = -180 - h.u(1e-9, 50);
    }
    std::streambuf * cb = std::cout.rdbuf(nullptr);
    h.mat("out of range coordinates give the zero vector", lla_to_ecef(bad), Vector3d::Zero(), 0);
    std::cout.rdbuf(cb);
    std::cout.clear();
    Vector3d lim(h.b() ? 90 : -90, h.b() ? 180 : -180, l(2));
    h.mat("the limits themselves are in range", lla_to_ecef(lim), geo::ecef(lim), 1e-12);
  }
}
