#include "camref.hpp"

void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    bool root = h.b(), ce = h.b(), prim = h.b(), distorted = h.b(), simulated = h.b();
    AugmentationType at = gen_at(h);
    int ns = h.i(0, 3);
    H hc = h;
    Cam c2 = gen_cam_ekf(hc, root, at, ce, prim, ns, distorted);
    Cam c = gen_cam_ekf(h, root, at, ce, prim, ns, distorted);
    EKF & e = *c.e, & e2 = *c2.e;
    // clones must not be added by the prediction itself
    e.m_augmenting_delta_time = e2.m_augmenting_delta_time = 1e9;
    double t = e.m_current_time + h.u(0, 0.05), near = h.u(0.5, 3);
    e2.PredictModel(t);
    const State & S = e2.m_state;
    int n = static_cast<int>(layout_size(S));
    MsckfUpdater u(c.id, ce, ".", 0.0, near, e.m_debug_logger);
    u.m_use_true_triangulation = simulated;
    const CamState & cs = S.cam_states.at(c.id);
    FeatureTracks fts;
    int nt = h.i(0, 6);
    double px = h.i(0, 2) ? h.u(0.6, 3) : h.u(0, 0.5), s = std::max(px, 0.5);
    MatrixXd L = MatrixXd::Zero(n, n);
    VectorXd b = VectorXd::Zero(n);
    int rows = 0;
    bool skip = false;
    for (int k = 0; k < nt; ++k) {
      FeatureTrack tr = gen_track(h, c2, t, h.i(0, 3) ? 4 : 0.4, 12, 0.002, distorted, S);
      fts.push_back(tr);
      Tri r = triangulated(c2, S, t, tr);
      if (r.cond > 1e5 || std::abs(r.depth - near) < 1e-2 || std::abs(r.depth - 100) < 1) {skip = true; break;}
      bool ok = simulated || (near <= r.depth && r.depth <= 100);
      if (!ok) {continue;}
      Vector3d X = simulated ? tr.true_feature_position : r.X;
      int m = static_cast<int>(tr.track.size());
      MatrixXd Hx = MatrixXd::Zero(2 * m, n), Hf(2 * m, 3);
      VectorXd res(2 * m);
      for (int q = 0; q < m; ++q) {
        auto & p = tr.track[static_cast<size_t>(q)];
        Seen a = lookup(e2, S, t, c.id, p.frame_id, p.frame_time);
        // image of the feature as function of clone pose, camera pose and feature position
        auto img = [&](const VectorXd & d) {
            Pose bp{a.pose.p + d.segment<3>(0), qexp(qlog(a.pose.q) + d.segment<3>(3))};
            CamState k2 = cs;
            k2.pos_c_in_b += d.segment<3>(6);
            k2.ang_c_to_b = qexp(qlog(cs.ang_c_to_b) + d.segment<3>(9));
            Vector3d x = camera_rot(bp, k2).transpose() * (X + d.segment<3>(12) - camera_centre(bp, k2));
            return lens(pinhole(x), cs.intrinsics);
          };
        if (near > 0 && (camera_rot(a.pose, cs).transpose() * (X - camera_centre(a.pose, cs)))(2) < 0.2) {skip = true;}
        MatrixXd J(2, 15);
        for (int z = 0; z < 15; ++z) {
          double d = 2e-4;
          auto f = [&](double y) {VectorXd v = VectorXd::Zero(15); v(z) = y; return img(v);};
          J.col(z) = (45 * (f(d) - f(-d)) - 9 * (f(2 * d) - f(-2 * d)) + (f(3 * d) - f(-3 * d))) / (60 * d);
        }
        res.segment<2>(2 * q) = normalised(p.key_point, cs.intrinsics) - img(VectorXd::Zero(15));
        MatrixXd A = J.leftCols(6);
        auto add = [&](int col, const MatrixXd & M) {Hx.block(2 * q, col, 2, M.cols()) += M;};
        add(a.i0, (1 - a.alpha) * A);
        if (a.alpha != 0 && a.body) {add(0, a.alpha * A.leftCols(3)); add(9, a.alpha * A.rightCols(3));}
        if (a.alpha != 0 && !a.body) {add(a.i1, a.alpha * A);}
        if (ce) {add(static_cast<int>(cs.index), J.middleCols(6, 6));}
        Hf.block<2, 3>(2 * q, 0) = J.rightCols(3);
      }
      Eigen::JacobiSVD<MatrixXd> svd(Hf, Eigen::ComputeThinU);
      if (svd.singularValues()(2) < 1e-4 * svd.singularValues()(0)) {skip = true; break;}
      MatrixXd Pn = MatrixXd::Identity(2 * m, 2 * m) - svd.matrixU() * svd.matrixU().transpose();
      L += Hx.transpose() * Pn * Hx / (s * s);
      b += Hx.transpose() * Pn * res / (s * s);
      rows += 2 * m - 3;
    }
    if (skip) {continue;}
    std::ostringstream o;
    o << (root ? "root " : "covariance ") << show(S) << " camera " << c.id << " augmentation " << static_cast<int>(at) << " tracks " << fts.size() << " rows " << rows << " calibrated " << ce << " simulated " << simulated << " pixel error " << px;
    h.ctx = o.str();
    Ref ref{S, P_of(e2, root)};
    if (rows > 1) {
      MatrixXd Pi = ref.P * (MatrixXd::Identity(n, n) + L * ref.P).inverse();
      ref.P = Pi;
      VectorXd d = Pi * b;
      ref.S += d;
    }
    u.UpdateEKF(e, 100 + t, fts, px);
    h.near("time", e.m_current_time, e2.m_current_time, 1e-9);
    h.ok("state size", e.m_state_size == static_cast<unsigned>(n));
    if (rows != 1) {compare(h, rows ? "track update" : "no usable track", e, root, ref, 3e-5);}
  }
}
