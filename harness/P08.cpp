#include "ekfgen.hpp"
#include "ekf/update/updater.hpp"

struct U : Updater
{
  explicit U(std::shared_ptr<DebugLogger> l)
  : Updater(1, l) {}
};

void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    bool root = h.b();
    auto e = gen_ekf(h, root, AugmentationType::ALL, h.i(0, 4), h.i(0, 3));
    int n = static_cast<int>(e->m_cov.rows()), m = h.i(1, h.b() ? 6 : 30);
    MatrixXd J = h.m(m, n), N = root ? h.diag(m) : h.psd(m);
    if (h.i(0, 3) == 0) {J.row(h.i(0, m - 1)).setZero();}
    VectorXd r = h.v(m, 0.2);
    MatrixXd P = P_of(*e, root);
    h.ctx = std::string(root ? "root " : "covariance ") + show(e->m_state) + " m=" + std::to_string(m);
    State S = e->m_state;
    U u(e->m_debug_logger);
    u.KalmanUpdate(*e, J, r, N);
    MatrixXd I = MatrixXd::Identity(n, n);
    MatrixXd K = P * J.transpose() * (J * P * J.transpose() + N).inverse();
    MatrixXd E = (I - K * J) * P * (I - K * J).transpose() + K * N * K.transpose();
    MatrixXd Pn = P_of(*e, root);
    h.mat("posterior covariance (I-KH)P(I-KH)'+KNK'", Pn, E, 1e-8);
    h.mat("posterior covariance is symmetric", Pn, Pn.transpose(), 1e-9);
    // information never decreases: P - P+ is positive semidefinite
    Eigen::SelfAdjointEigenSolver<MatrixXd> ev(0.5 * (P - Pn + (P - Pn).transpose()), Eigen::EigenvaluesOnly);
    h.ok("no state becomes less certain", ev.eigenvalues().minCoeff() > -1e-8 * (1 + P.norm()));
    Eigen::SelfAdjointEigenSolver<MatrixXd> ev2(0.5 * (Pn + Pn.transpose()), Eigen::EigenvaluesOnly);
    h.ok("posterior covariance is positive", ev2.eigenvalues().minCoeff() > -1e-9 * (1 + P.norm()));
    VectorXd d = K * r;
    State T = S;
    T += d;                 // composition itself is P03
    h.mat("state moves by gain times residual", e->m_state.ToVector(), T.ToVector(), 1e-7);
    h.mat("body position moves by gain times residual", e->m_state.body_state.pos_b_in_l, S.body_state.pos_b_in_l + d.head(3), 1e-8);
    h.quat("body orientation is composed with the correction", e->m_state.body_state.ang_b_to_l, qprod(S.body_state.ang_b_to_l, qexp(Vector3d(d.segment(9, 3)))), 1e-8);
  }
}
