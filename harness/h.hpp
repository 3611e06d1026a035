// Evaluates contract postconditions on the compiled library. Own oracle, own generators; takes /repo's sources.
#ifndef H_HPP_
#define H_HPP_
#include <eigen3/Eigen/Eigen>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <csetjmp>
#include <csignal>

using Eigen::MatrixXd;
using Eigen::VectorXd;
using Eigen::Vector3d;
using Eigen::Vector2d;
using Eigen::Matrix3d;
using Eigen::Quaterniond;

struct H
{
  uint64_t s, seed;
  long iters;
  long cases{0}, checks{0}, fails{0};
  std::map<std::string, long> ob;
  std::set<std::string> failed;
  std::string ctx;
  FILE * out{stdout};

  uint64_t next()
  {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int i(int lo, int hi) {return lo + static_cast<int>(next() % static_cast<uint64_t>(hi - lo + 1));}
  bool b() {return next() & 1;}
  double u(double lo, double hi) {return lo + (hi - lo) * (static_cast<double>(next() >> 11) / 9007199254740992.0);}
  double lg(double lo, double hi) {return std::exp(u(std::log(lo), std::log(hi)));}       // all magnitudes alike
  double n() {return std::sqrt(-2 * std::log(u(1e-12, 1))) * std::cos(u(0, 2 * M_PI));}
  Vector3d v3(double k = 1) {return Vector3d(u(-k, k), u(-k, k), u(-k, k));}
  VectorXd v(int n_, double k = 1) {VectorXd r(n_); for (int j = 0; j < n_; ++j) {r(j) = u(-k, k);} return r;}
  MatrixXd m(int r, int c, double k = 1)
  {
    MatrixXd x(r, c);
    for (int p = 0; p < r; ++p) {for (int q = 0; q < c; ++q) {x(p, q) = u(-k, k);}}
    return x;
  }
  Quaterniond q()
  {
    Quaterniond r(n(), n(), n(), n());
    r.normalize();
    return r;
  }
  MatrixXd psd(int n_, double k = 1) {MatrixXd a = m(n_, n_ + 2, k); return a * a.transpose() / n_ + 0.05 * k * k * MatrixXd::Identity(n_, n_);}
  MatrixXd upper(int n_)
  {
    MatrixXd a = MatrixXd::Zero(n_, n_);
    for (int p = 0; p < n_; ++p) {
      for (int c = p; c < n_; ++c) {a(p, c) = u(-1, 1);}
      a(p, p) = u(0.3, 1.5);
    }
    return a;
  }
  MatrixXd diag(int n_) {MatrixXd a = MatrixXd::Zero(n_, n_); for (int p = 0; p < n_; ++p) {a(p, p) = u(0.01, 2);} return a;}

  void fail(const std::string & name, const std::string & why)
  {
    ++fails;
    if (failed.insert(name).second) {
      fprintf(out, "FAIL\t%s\tseed=%llu case=%ld %s\t%s\n", name.c_str(), static_cast<unsigned long long>(seed), cases, ctx.c_str(), why.c_str());
      fflush(out);
    }
  }
  bool ok(const std::string & name, bool c, const std::string & why = "")
  {
    ++checks;
    ++ob[name];
    if (!c) {fail(name, why);}
    return c;
  }
  bool near(const std::string & name, double a, double b_, double tol = 1e-7)
  {
    ++checks;
    ++ob[name];
    bool good = (a == b_) || std::abs(a - b_) <= tol * (1 + std::abs(a) + std::abs(b_));
    if (!good) {
      char buf[200];
      snprintf(buf, sizeof buf, "got %.12g expected %.12g", a, b_);
      fail(name, buf);
    }
    return good;
  }
  template<class A, class B>
  bool mat(const std::string & name, const A & a_, const B & b_, double tol = 1e-7)
  {
    MatrixXd a = a_, b = b_;
    ++checks;
    ++ob[name];
    if (a.rows() != b.rows() || a.cols() != b.cols()) {
      std::ostringstream w;
      w << "got " << a.rows() << "x" << a.cols() << " expected " << b.rows() << "x" << b.cols();
      fail(name, w.str());
      return false;
    }
    double scale = 1 + (b.size() ? b.cwiseAbs().maxCoeff() : 0);
    for (int p = 0; p < a.rows(); ++p) {
      for (int c = 0; c < a.cols(); ++c) {
        if (!(std::abs(a(p, c) - b(p, c)) <= tol * scale)) {
          std::ostringstream w;
          w.precision(12);
          w << "entry (" << p << "," << c << ") got " << a(p, c) << " expected " << b(p, c);
          fail(name, w.str());
          return false;
        }
      }
    }
    return true;
  }
  // the same quaternion (not up to sign)
  bool quat(const std::string & name, const Quaterniond & a, const Quaterniond & b_, double tol = 1e-7)
  {return mat(name, a.coeffs(), b_.coeffs(), tol);}
  // the same rotation
  bool rot(const std::string & name, const Quaterniond & a, const Quaterniond & b_, double tol = 1e-7)
  {return mat(name, a.toRotationMatrix(), b_.toRotationMatrix(), tol) & near(name + " (unit)", a.norm(), 1, tol);}
};

// exponential and logarithm of rotations, own implementation
inline Quaterniond qexp(const Vector3d & r)
{
  double a = r.norm();
  if (a < 1e-12) {return Quaterniond(1, 0, 0, 0);}
  Vector3d x = r / a * std::sin(a / 2);
  return Quaterniond(std::cos(a / 2), x(0), x(1), x(2));
}
inline Quaterniond qprod(const Quaterniond & a, const Quaterniond & b)
{
  return Quaterniond(
    a.w() * b.w() - a.x() * b.x() - a.y() * b.y() - a.z() * b.z(),
    a.w() * b.x() + a.x() * b.w() + a.y() * b.z() - a.z() * b.y(),
    a.w() * b.y() - a.x() * b.z() + a.y() * b.w() + a.z() * b.x(),
    a.w() * b.z() + a.x() * b.y() - a.y() * b.x() + a.z() * b.w());
}
inline Quaterniond qbar(const Quaterniond & a) {return Quaterniond(a.w(), -a.x(), -a.y(), -a.z());}
inline Matrix3d rotm(const Quaterniond & q)
{
  double w = q.w(), x = q.x(), y = q.y(), z = q.z();
  Matrix3d r;
  r << 1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
    2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
    2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y);
  return r;
}
inline Vector3d qlog(const Quaterniond & q)
{
  Vector3d v(q.x(), q.y(), q.z());
  double n = v.norm(), w = q.w();
  if (n < 1e-15) {return Vector3d::Zero();}
  if (w < 0) {w = -w; v = -v;}
  return v / n * 2 * std::atan2(n, w);
}
inline Matrix3d skew(const Vector3d & v)
{
  Matrix3d m;
  m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
  return m;
}

void run(H & h);

extern "C" inline void h_abort(int)
{
  // an assertion of the library or of Eigen failed on a valid input
  const char m[] = "ABORTED\n";
  if (write(2, m, sizeof m - 1)) {}
  _exit(4);
}

static H * g_h = nullptr;
static void h_sig(int sig)
{
  fprintf(g_h->out, "FAIL\tno crash on valid input\tseed=%llu case=%ld %s\tsignal %d (assertion, out-of-range access or arithmetic trap)\n",
    static_cast<unsigned long long>(g_h->seed), g_h->cases, g_h->ctx.c_str(), sig);
  fprintf(g_h->out, "CASES\t%ld\nCHECKS\t%ld\n", g_h->cases, g_h->checks);
  fflush(g_h->out);
  _exit(3);
}

int main(int argc, char ** argv)
{
  H h;
  h.seed = h.s = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
  h.iters = argc > 2 ? atol(argv[2]) : 200;
  if (argc > 3) {h.out = fopen(argv[3], "w");}
  g_h = &h;
  signal(SIGABRT, h_sig);
  signal(SIGSEGV, h_sig);
  signal(SIGFPE, h_sig);
  run(h);
  for (auto & o : h.ob) {fprintf(h.out, "OB\t%s\t%ld\n", o.first.c_str(), o.second);}
  fprintf(h.out, "CASES\t%ld\nCHECKS\t%ld\n", h.cases, h.checks);
  fclose(h.out);
  return h.fails ? 3 : 0;
}
#endif
