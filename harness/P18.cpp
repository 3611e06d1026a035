#include "camref.hpp"

static MatrixXd fd(const VectorXd & x, std::function<VectorXd(const VectorXd &)> f)
{
  MatrixXd J(2, x.size());
  for (int k = 0; k < x.size(); ++k) {
    double d = 1e-3 * (1 + std::abs(x(k)));
    auto at = [&](double s) {VectorXd y = x; y(k) += s; return f(y);};
    J.col(k) = (45 * (at(d) - at(-d)) - 9 * (at(2 * d) - at(-2 * d)) + (at(3 * d) - at(-3 * d))) / (60 * d);
  }
  return J;
}
void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    std::ostringstream o;
    Vector3d x = h.v3(5);
    x(2) = (h.i(0, 3) ? 1 : -1) * h.u(0.5, 20);
    o << "point " << x.transpose();
    h.ctx = o.str();
    h.mat("projection", MsckfUpdater::Project(x), pinhole(x), 1e-12);
    MatrixXd J = h.m(2, 3);
    MsckfUpdater::ProjectionJacobian(x, J);
    Vector3d xs = x / x(2);        // same image, unit depth: the derivative scales with the depth
    h.mat("projection derivative", J * x(2), fd(xs, [](const VectorXd & y) {return VectorXd(pinhole(y));}), 1e-9);
    Vector2d p(h.u(-1.5, 1.5), h.u(-1.5, 1.5));
    Intrinsics k = gen_lens(h, true);
    int z = h.i(0, 7);
    if (z == 1) {k.k_1 = 0;}
    if (z == 2) {k.k_2 = 0;}
    if (z == 3) {k.p_1 = 0;}
    if (z == 4) {k.p_2 = 0;}
    if (z == 5) {p(0) = 0;}
    std::ostringstream o2;
    o2 << "image " << p.transpose() << " k " << k.k_1 << " " << k.k_2 << " p " << k.p_1 << " " << k.p_2;
    h.ctx = o2.str();
    h.mat("distortion", MsckfUpdater::Distort(p, k), lens(p, k), 1e-12);
    MatrixXd D = h.m(h.i(0, 3), h.i(0, 3));
    MsckfUpdater::DistortionJacobian(p, k, D);
    h.mat("distortion derivative", D, fd(p, [&](const VectorXd & y) {return VectorXd(lens(y, k));}), 1e-9);
  }
}
