#include "ekfgen.hpp"

void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    bool root = h.b();
    auto e = gen_ekf(h, root, h.b() ? AugmentationType::ALL : AugmentationType::NONE, h.i(1, 6), h.i(0, 3));
    e->RefreshIndices();
    bool g = h.i(0, 5);
    if (g) {e->InitializeGravity();}
    e->SetZeroAcceleration(h.b());
    double t0 = h.u(0, 5), dt = h.i(0, 6) ? h.u(0, 0.8) : 0;
    e->m_current_time = t0;
    MatrixXd P = P_of(*e, root), Q = root ? MatrixXd(e->m_process_noise.transpose() * e->m_process_noise) : e->m_process_noise;
    int n = static_cast<int>(P.rows());
    std::ostringstream o;
    o << (root ? "root " : "cov ") << (g ? "gravity " : "") << "dt=" << dt << " " << show(e->m_state);
    h.ctx = o.str();
    e->PredictModel(t0 + dt);
    dt = (t0 + dt) - t0;
    MatrixXd F = MatrixXd::Identity(n, n);
    F.block(0, 3, 3, 3) = dt * Matrix3d::Identity();
    MatrixXd X = !g ? P : root ? MatrixXd(F * P * F.transpose() + Q * dt) : MatrixXd(F * (P + Q * dt) * F.transpose());
    MatrixXd N = P_of(*e, root);
    h.ok("covariance keeps its size", e->m_cov.rows() == n && e->m_cov.cols() == n);
    h.mat("predicted covariance", N, X, 1e-9);
    h.mat("predicted covariance is symmetric", N, N.transpose(), 1e-9);
    Eigen::SelfAdjointEigenSolver<MatrixXd> s(0.5 * (N + N.transpose()));
    h.ok("predicted covariance is positive semi-definite", s.eigenvalues().minCoeff() > -1e-9 * (1 + s.eigenvalues().maxCoeff()));
    if (root) {h.mat("root stays upper triangular", e->m_cov, MatrixXd(e->m_cov.triangularView<Eigen::Upper>()), 1e-12);}
    MatrixXd T = EKF::GetStateTransition(dt);
    h.mat("transition adds dt times velocity to the position", T, F.topLeftCorner(18, 18), 1e-12);
  }
}
