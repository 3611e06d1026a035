#include "h.hpp"
#include "utility/math_helper.hpp"

void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    std::ostringstream o;
    int n = h.i(1, 8), a = h.i(0, 9), b = h.i(0, 9);
    if (a + b < n) {b = n - a;}
    MatrixXd A = h.m(a, n), B = h.m(b, n);
    o << "qr " << a << "+" << b << "x" << n;
    h.ctx = o.str();
    MatrixXd R = QR_r(A, B);
    h.mat("R'R = A'A + B'B", R.transpose() * R, A.transpose() * A + B.transpose() * B, 1e-9);
    h.mat("R is upper triangular", R, MatrixXd(R.triangularView<Eigen::Upper>()), 1e-12);

    // left nullspace: features are eliminated, and the kept rows carry all information on the rest
    int f = h.i(1, 3), m = f + h.i(1, 9), x = h.i(1, 12);
    MatrixXd Hf = h.m(m, f), Hx = h.m(m, x);
    if (h.i(0, 3) == 0 && f > 1) {Hf.col(1) = Hf.col(0);}
    VectorXd r = h.v(m), dx = h.v(x), df = h.v(f);
    std::ostringstream o2;
    o2 << "nullspace Hf " << m << "x" << f << " Hx " << m << "x" << x;
    h.ctx = o2.str();
    MatrixXd hx = Hx, hf = Hx;
    VectorXd res = r, z = Hf * df;
    ApplyLeftNullspace(Hf, hx, res);
    h.ok("rows left after projection", hx.rows() == m - f && res.size() == m - f && hx.cols() == x);
    MatrixXd d2 = Hx;
    ApplyLeftNullspace(Hf, d2, z);
    h.mat("feature part is eliminated", z, VectorXd::Zero(m - f), 1e-9);
    VectorXd full = Hx * dx + Hf * df;
    MatrixXd d3 = Hx;
    ApplyLeftNullspace(Hf, d3, full);
    h.mat("projection is the same for Jacobian and residual", full, hx * dx, 1e-9);
    Eigen::FullPivLU<MatrixXd> lu(Hf);
    if (lu.rank() == f) {
      MatrixXd Pn = MatrixXd::Identity(m, m) - Hf * (Hf.transpose() * Hf).inverse() * Hf.transpose();
      h.mat("information on the state is preserved", hx.transpose() * hx, Hx.transpose() * Pn * Hx, 1e-7);
      h.mat("information vector is preserved", hx.transpose() * res, Hx.transpose() * Pn * r, 1e-7);
      h.near("residual energy is preserved", res.squaredNorm(), (Pn * r).squaredNorm(), 1e-7);
    }
    // compression
    int cr = h.i(1, 14), cc = h.i(1, 8);
    MatrixXd J = h.m(cr, cc);
    VectorXd e = h.v(cr);
    int mode = h.i(0, 5);
    if (mode == 0) {J.col(h.i(0, cc - 1)).setZero();}
    if (mode == 1 && cc > 1) {J.col(1) = J.col(0);}
    if (mode == 2) {J.col(0).setZero();}
    if (mode == 3) {for (int k = 1; k < cr; ++k) {J.row(k) = J.row(0) * h.u(-1, 1);}}
    if (mode == 4) {J.setZero();}
    // states seen much more weakly than others
    if (h.b()) {for (int k = 0; k < cc; ++k) {if (h.b()) {J.col(k) *= h.lg(1e-7, 1);}}}
    MatrixXd K = J;
    VectorXd g = e;
    std::ostringstream o3;
    o3 << "compress " << cr << "x" << cc << " mode " << mode;
    h.ctx = o3.str();
    CompressMeasurements(K, g);
    h.ok("Jacobian and residual keep matching sizes", K.rows() == g.size() && K.cols() == cc && K.rows() <= cr);
    h.mat("information matrix is preserved", K.transpose() * K, J.transpose() * J, 1e-7);
    h.mat("information vector is preserved by compression", K.transpose() * g, J.transpose() * e, 1e-7);
    if (cr >= cc) {h.ok("no more rows than states are kept", K.rows() <= cc);}
    else {h.mat("fat Jacobians are left alone", K, J, 0); h.mat("fat residuals are left alone", g, e, 0);}
  }
}
