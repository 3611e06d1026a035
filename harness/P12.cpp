#include "h.hpp"
#include "utility/type_helper.hpp"
#include "utility/math_helper.hpp"
#include <opencv2/opencv.hpp>

void run(H & h)
{
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    Vector3d v = h.v3();
    double a = h.i(0, 4) ? h.u(0, M_PI - 1e-6) : (h.b() ? h.lg(1e-12, 1e-2) : h.u(M_PI, 12));
    v *= a / v.norm();
    if (h.i(0, 30) == 0) {v.setZero(); a = 0;}
    Quaterniond q = h.q();
    if (h.i(0, 5) == 0) {q = qexp(Vector3d(h.v3(1e-3)));}
    std::ostringstream o;
    o.precision(15);
    o << "v=" << v.transpose() << " q=" << q.coeffs().transpose();
    h.ctx = o.str();
    h.quat("rotation vector to quaternion", RotVecToQuat(v), qexp(v), 1e-9);
    h.near("it is a unit quaternion", RotVecToQuat(v).norm(), 1, 1e-12);
    Vector3d l = QuatToRotVec(q);
    h.rot("quaternion to rotation vector: the same rotation", qexp(l), q, 1e-9);
    h.ok("quaternion to rotation vector: the short way", l.norm() <= M_PI + 1e-9);
    h.mat("quaternion to rotation vector", l, qlog(q), 1e-8);
    if (a < M_PI - 1e-3) {h.mat("rotation vector to quaternion and back", QuatToRotVec(RotVecToQuat(v)), v, 1e-7);}
    h.rot("q and -q are the same rotation vector", qexp(QuatToRotVec(Quaterniond(-q.w(), -q.x(), -q.y(), -q.z()))), q, 1e-9);
    Vector3d e = h.v3(3);
    Quaterniond yaw(std::cos(e(2) / 2), 0, 0, std::sin(e(2) / 2)), pit(std::cos(e(1) / 2), 0, std::sin(e(1) / 2), 0), rol(std::cos(e(0) / 2), std::sin(e(0) / 2), 0, 0);
    h.quat("Euler angles: yaw, pitch, roll", EigVecToQuat(e), qprod(qprod(yaw, pit), rol), 1e-12);
    std::vector<double> s{h.u(-2, 2), h.u(-2, 2), h.u(-2, 2), h.u(-2, 2)};
    double n = std::sqrt(s[0] * s[0] + s[1] * s[1] + s[2] * s[2] + s[3] * s[3]);
    h.quat("list to quaternion, normalised", StdToEigQuat(s), Quaterniond(s[0] / n, s[1] / n, s[2] / n, s[3] / n), 1e-12);
    s.resize(h.b() ? 5 : h.i(0, 3), 0.5);
    h.quat("another length gives the identity", StdToEigQuat(s), Quaterniond(1, 0, 0, 0), 0);
    std::vector<double> t{h.u(-2, 2), h.u(-2, 2), h.u(-2, 2)};
    h.mat("list to vector", StdToEigVec(t), Vector3d(t[0], t[1], t[2]), 0);
    Vector3d y = h.v3();
    h.mat("skew matrix", SkewSymmetric(v), skew(v), 0);
    h.mat("skew matrix times a vector is the cross product", SkewSymmetric(v) * y, v.cross(y), 1e-12);
    Vector3d th = qlog(q);
    double m = th.norm();
    if (m > 1e-4) {
      Matrix3d S = skew(th), J = Matrix3d::Identity() - (1 - std::cos(m)) / (m * m) * S + (m - std::sin(m)) / (m * m * m) * S * S;
      h.mat("rotation group right Jacobian", QuaternionJacobian(q), J, 1e-6);
      // its meaning: exp(th + d) = exp(th) exp(J d)
      Vector3d d = h.v3(1e-5);
      h.mat("right Jacobian maps vector changes to rotation changes", qlog(qprod(qbar(qexp(th)), qexp(Vector3d(th + d)))) * 1e5, Vector3d(QuaternionJacobian(q) * d) * 1e5, 2e-4);
    }
    double z = h.i(0, 9) ? h.u(-1, 1) : 0.0;
    h.ok("sign", sign(z) == (z > 0 ? 1 : (z < 0 ? -1 : 0)));
    Matrix3d M = h.m(3, 3), M2;
    cv::Mat c(3, 3, CV_64F);
    EigenMatrixToCv(M, c);
    bool same = true;
    for (int i = 0; i < 3; ++i) {for (int j = 0; j < 3; ++j) {same &= c.at<double>(i, j) == M(i, j);}}
    h.ok("matrix to OpenCV", same);
    CvMatrixToEigen(c, M2);
    h.mat("matrix from OpenCV", M2, M, 0);
    cv::Vec3d rd = QuatToRodrigues(q);
    h.rot("Rodrigues vector: the same rotation", qexp(Vector3d(rd[0], rd[1], rd[2])), q, 1e-6);
    h.rot("Rodrigues vector and back", RodriguesToQuat(rd), q, 1e-6);
    cv::Vec3d cvv(v(0), v(1), v(2));
    h.mat("vector from OpenCV", CvVectorToEigen(cvv), v, 0);
    std::vector<Vector3d> vs;
    for (int k = h.i(0, 5); k > 0; --k) {vs.push_back(h.v3());}
    auto w = vs - y;
    if (h.ok("shifted vectors: number", w.size() == vs.size())) {
      for (unsigned k = 0; k < vs.size(); ++k) {h.mat("shifted vectors", w[k], vs[k] - y, 0);}
    }
  }
}
