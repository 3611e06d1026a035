#include "ekfgen.hpp"

void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    bool root = h.b();
    int n = h.i(18, 40), idx = h.b() ? n : h.i(18, n);
    auto p = params(h, root, AugmentationType::ALL);
    EKF e(p);
    MatrixXd C = root ? h.upper(n) : h.psd(n);
    MatrixXd J = MatrixXd::Zero(n + 6, n);
    for (int i = 0; i < n + 6; ++i) {
      int s = i < idx ? i : (i < idx + 3 ? i - idx : (i < idx + 6 ? 9 + i - idx - 3 : i - 6));
      J(i, s) = 1;
    }
    std::ostringstream o;
    o << (root ? "root" : "covariance") << " n=" << n << " index=" << idx;
    h.ctx = o.str();
    MatrixXd A = e.AugmentCovariance(C, idx);
    MatrixXd P = root ? MatrixXd(C.transpose() * C) : C;
    h.mat("cloned covariance is J P J'", root ? MatrixXd(A.transpose() * A) : A, J * P * J.transpose(), 1e-9);
    int sz = h.i(0, std::min(12, n)), at = h.i(0, n - sz);
    MatrixXd M = e.MarginalizeCovariance(C, at, sz), X(n - sz, n);
    X.setZero();
    for (int i = 0; i < n - sz; ++i) {X(i, i < at ? i : i + sz) = 1;}
    h.mat("marginalised covariance keeps the other blocks", root ? MatrixXd(M.transpose() * M) : M, X * P * X.transpose(), 1e-9);
    if (root) {
      h.mat("marginalised root is upper triangular", M, MatrixXd(M.triangularView<Eigen::Upper>()), 1e-12);
      h.mat("cloned root is upper triangular", A, MatrixXd(A.triangularView<Eigen::Upper>()), 1e-12);
    }
  }
  // the state side: the clone copies the current pose, the filter covariance follows
  for (long k = 0; k < h.iters / 4; ++k, ++h.cases) {
    bool root = h.b();
    auto e = gen_ekf(h, root, AugmentationType::ALL, h.i(0, 5), h.i(0, 4));
    e->m_state.body_state = gen_body(h);
    MatrixXd P0 = P_of(*e, root);
    State S = e->m_state;
    unsigned int cam = static_cast<unsigned int>(h.i(1, 3));
    h.ctx = show(S) + (root ? " root" : "");
    if (S.aug_states[cam].size() >= e->m_max_track_length) {continue;}
    e->m_current_time = h.u(0, 10);
    e->AugmentStateIfNeeded(cam, 777);
    auto L = layout(e->m_state);
    const AugState & a = e->m_state.aug_states.at(cam).back();
    h.mat("clone position is the body position", a.pos_b_in_l, S.body_state.pos_b_in_l, 0);
    h.quat("clone orientation is the body orientation", a.ang_b_to_l, S.body_state.ang_b_to_l, 0);
    h.ok("clone frame and time", a.frame_id == 777 && a.time == e->m_current_time);
    MatrixXd P1 = P_of(*e, root);
    int n0 = static_cast<int>(P0.rows());
    int idx = -1;
    for (auto & s : L) {if (s.kind == 'a' && s.id == cam && s.k == e->m_state.aug_states.at(cam).size() - 1) {idx = static_cast<int>(s.index);}}
    MatrixXd J = MatrixXd::Zero(n0 + 6, n0);
    for (int i = 0; i < n0 + 6; ++i) {J(i, i < idx ? i : (i < idx + 3 ? i - idx : (i < idx + 6 ? 9 + i - idx - 3 : i - 6))) = 1;}
    h.mat("filter covariance after cloning", P1, J * P0 * J.transpose(), 1e-9);
  }
}
