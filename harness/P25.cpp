// Log files of the compiled library, read back: one header, a field for every column, the named quantities.
#include "camref.hpp"
#include "ekf/update/imu_updater.hpp"
#include "ekf/update/gps_updater.hpp"
#include "ekf/update/fiducial_updater.hpp"
#include "ekf/update/msckf_updater.hpp"
#include "infrastructure/data_logger.hpp"
#include "infrastructure/sim/truth_engine_cyclic.hpp"
#include "utility/string_helper.hpp"
#include "geo.hpp"
#include <dirent.h>
#include <fstream>

// what a live logger still holds back reaches its file (rows may be buffered)
template<class L> static auto drain(L & l, int) -> decltype(l.m_log_file.flush(), void()) {l.m_log_file.flush();}
template<class L> static void drain(L &, long) {}

struct Csv
{
  bool there{false};
  std::vector<std::string> head;
  std::vector<std::vector<std::string>> rows;
};
static std::vector<std::string> cut(const std::string & s)
{
  std::vector<std::string> r(1);
  for (char c : s) {if (c == ',') {r.push_back("");} else {r.back() += c;}}
  return r;
}
static std::vector<std::string> lines(const std::string & p, bool & there)
{
  std::ifstream f(p);
  there = f.good();
  std::vector<std::string> r;
  std::string s;
  while (std::getline(f, s)) {r.push_back(s);}
  return r;
}
static Csv csv(const std::string & p)
{
  Csv c;
  auto l = lines(p, c.there);
  for (size_t k = 0; k < l.size(); ++k) {
    if (k == 0) {c.head = cut(l[k]);} else {c.rows.push_back(cut(l[k]));}
  }
  return c;
}
static const double ANY = NAN;       // a column whose value is not specified
using Cols = std::vector<std::pair<std::string, double>>;
template<class V>
static void put(Cols & c, const std::string & n, const V & v)
{for (int k = 0; k < v.size(); ++k) {c.push_back({n + "_" + std::to_string(k), v(k)});}}
static void putq(Cols & c, const std::string & n, const Quaterniond & q)
{Eigen::Vector4d v(q.w(), q.x(), q.y(), q.z()); put(c, n, v);}
static void putn(Cols & c, const std::string & n, int k)
{for (int j = 0; j < k; ++j) {c.push_back({n + "_" + std::to_string(j), ANY});}}
static VectorXd vars(const EKF & e, bool root, unsigned at, int n)
{return P_of(e, root).diagonal().segment(at, n);}

struct Files
{
  std::string dir;
  Files()
  {
    char t[] = "/tmp/p25_XXXXXX";
    dir = std::string(mkdtemp(t)) + "/";
  }
  std::vector<std::string> list()
  {
    std::vector<std::string> r;
    if (DIR * d = opendir(dir.c_str())) {
      while (auto * x = readdir(d)) {std::string n = x->d_name; if (n != "." && n != "..") {r.push_back(n);}}
      closedir(d);
    }
    return r;
  }
  void clear() {for (auto & n : list()) {unlink((dir + n).c_str());}}
  ~Files() {clear(); rmdir(dir.c_str());}
};
// every row has a field for every column, and the columns have different names
static void shape(H & h, const std::string & f, const Csv & c)
{
  std::set<std::string> names(c.head.begin(), c.head.end());
  h.ok(f + ": column names differ", names.size() == c.head.size());
  for (auto & r : c.rows) {
    h.ok(f + ": a field for every column", r.size() == c.head.size(), std::to_string(r.size()) + " fields, " + std::to_string(c.head.size()) + " columns");
    h.ok(f + ": the header is written once", r != c.head);
    for (auto & x : r) {
      char * end = nullptr;
      strtod(x.c_str(), &end);
      h.ok(f + ": fields are numbers", !x.empty() && *end == 0, x);
    }
  }
}
// the row holds these quantities under their names
static void row(H & h, const std::string & f, const Csv & c, const std::vector<std::string> & r, const Cols & want, double tol = 2e-5)
{
  std::map<std::string, double> got;
  for (size_t k = 0; k < c.head.size() && k < r.size(); ++k) {got[c.head[k]] = atof(r[k].c_str());}
  for (auto & w : want) {
    if (!h.ok(f + ": has column " + w.first, got.count(w.first) == 1)) {continue;}
    if (std::isnan(w.second)) {continue;}
    double a = got[w.first], b = w.second;
    char m[120];
    snprintf(m, sizeof m, "wrote %.9g expected %.9g", a, b);
    h.ok(f + ": " + w.first, a == b || std::abs(a - b) <= tol * std::abs(b) + 1e-10, m);
  }
}

// ---------------------------------------------------------------- any sequence of requests to one logger
static void logger(H & h, Files & F)
{
  F.clear();
  std::string name = "l" + std::to_string(h.i(0, 99)) + ".csv", header = "a,b" + std::to_string(h.i(0, 99));
  // dyadic steps reach the count allowed exactly
  bool grid = h.b();
  auto any_rate = [&]() {return h.i(0, 3) == 0 ? 0 : grid ? static_cast<double>(1 << h.i(0, 3)) : h.u(0.5, 20);};
  double rate = any_rate();
  DataLogger l = h.b() ? DataLogger(F.dir, name, rate) : DataLogger("", "");
  l.SetOutputDirectory(F.dir); l.SetOutputFileName(name); l.SetLogRate(rate);
  l.DefineHeader(header);
  bool on = false, started = false;
  double t0 = 0, t = grid ? h.i(-3, 3) : h.u(-3, 3);
  std::vector<std::string> want;
  if (h.b()) {l.EnableLogging(); on = true;}
  int n = h.i(0, 40);
  std::ostringstream o;
  o << "rate=" << rate << " on=" << on;
  for (int k = 0; k < n; ++k) {
    std::string m = "m" + std::to_string(k) + "," + std::to_string(h.i(0, 9));
    switch (h.i(0, 12)) {
      case 0: l.EnableLogging(); on = true; o << " enable"; break;
      case 1: case 2: l.Log(m); o << " log"; if (on) {want.push_back(m);} break;
      case 3: rate = any_rate(); l.SetLogRate(rate); o << " rate=" << rate; break;
      default: {
          t += grid ? h.i(-1, 6) / 16.0 : h.i(0, 9) ? h.u(0, 0.2) : -h.u(0, 0.1);
          l.RateLimitedLog(m, t);
          o << " at" << t;
          if (on) {
            if (!started) {started = true; t0 = t; want.push_back(m);} else if (rate == 0 || static_cast<double>(want.size()) < rate * (t - t0)) {want.push_back(m);}
          }
        }
    }
  }
  h.ctx = "logger " + o.str();
  bool there;
  drain(l, 0);
  auto got = lines(F.dir + name, there);
  h.ok("logger: a file exactly when a row was due", there == !want.empty());
  if (!want.empty()) {want.insert(want.begin(), header);}
  std::ostringstream w;
  w << "got " << got.size() << " lines, expected " << want.size();
  h.ok("logger: the header, then the rows that were due, in order", got == want, w.str());
  h.ok("logger: no other file", F.list().size() == (want.empty() ? 0u : 1u));
}

static void text(H & h)
{
  VectorXd v = h.v(h.i(0, 9), 10);
  Quaterniond q = h.q();
  std::string n = "n" + std::to_string(h.i(0, 9));
  unsigned k = static_cast<unsigned>(h.i(0, 20));
  std::string e;
  for (unsigned j = 0; j < k; ++j) {e += "," + n + "_" + std::to_string(j);}
  h.ok("text: numbered columns", EnumerateHeader(n, k) == e);
  auto fields = [&](const char * what, const std::string & s, const VectorXd & x, double tol) {
      auto f = cut(s);
      if (!h.ok(std::string(what) + ": one field each", static_cast<int>(f.size()) == x.size() + 1 && f[0].empty())) {return;}
      for (int j = 0; j < x.size(); ++j) {
        h.ok(std::string(what) + ": the values in order", std::abs(atof(f[static_cast<size_t>(j + 1)].c_str()) - x(j)) <= tol * std::abs(x(j)) + 1e-300, f[static_cast<size_t>(j + 1)]);
      }
    };
  fields("text of a vector", VectorToCommaString(v), v, 2e-5);
  int p = h.i(6, 15);
  fields("text of a vector with given precision", VectorToCommaString(v, p), v, 2 * std::pow(10.0, 1 - p));
  fields("text of a quaternion", QuaternionToCommaString(q), Eigen::Vector4d(q.w(), q.x(), q.y(), q.z()), 2e-5);
}

// ---------------------------------------------------------------- the filter and its updaters
static Cols body_cols(const EKF & e, bool root)
{
  const BodyState & b = e.m_state.body_state;
  Cols c{{"time", e.m_current_time}};
  put(c, "body_pos", b.pos_b_in_l); put(c, "body_vel", b.vel_b_in_l); put(c, "body_acc", b.acc_b_in_l);
  putq(c, "body_ang_pos", b.ang_b_to_l);
  put(c, "body_ang_vel", b.ang_vel_b_in_l); put(c, "body_ang_acc", b.ang_acc_b_in_l);
  put(c, "body_cov", vars(e, root, 0, 18));
  c.push_back({"state_size", static_cast<double>(e.m_state_size)});
  c.push_back({"duration_0", ANY});
  return c;
}
static void same_columns(H & h, const std::string & f, const Csv & c, const Cols & want)
{
  std::string a, b;
  for (auto & x : c.head) {a += x + ",";}
  for (auto & x : want) {b += x.first + ",";}
  h.ok(f + ": the columns", a == b, "got " + a + " expected " + b);
}
static void check(H & h, Files & F, const std::string & f, bool enabled, size_t rows, const Cols & want, bool at_least = false)
{
  Csv c = csv(F.dir + f);
  if (!enabled || rows == 0) {
    h.ok(f.substr(0, f.find('_')) + ": nothing written with logging off or nothing to write", !c.there || (at_least && enabled));
    if (!c.there) {return;}
  }
  std::string k = f.substr(0, f.find_first_of("0123456789."));
  if (!h.ok(k + ": written when enabled", c.there)) {return;}
  shape(h, k, c);
  h.ok(k + ": a row for every update", at_least ? c.rows.size() >= rows : c.rows.size() == rows, std::to_string(c.rows.size()) + " rows, " + std::to_string(rows) + " expected");
  same_columns(h, k, c, want);
  if (!c.rows.empty()) {row(h, k, c, c.rows.back(), want);}
}

static void filter(H & h, Files & F)
{
  F.clear();
  bool root = h.b(), on = h.i(0, 3) != 0, a = h.b(), b = h.b();
  double rate = on ? h.u(1, 1e3) : 0;
  auto p = params(h, root, AugmentationType::ALL);
  p.log_directory = F.dir; p.data_log_rate = rate;
  EKF e(p);
  if (on) {e.m_data_logger.SetLogRate(0);}
  e.m_state.body_state = gen_body(h);
  add_random_sensors(h, e, h.i(0, 4));
  unsigned id = static_cast<unsigned>(h.i(41, 60)), fid = static_cast<unsigned>(h.i(41, 60));
  int kind = h.i(0, 3);
  e.m_time_initialized = true; e.m_reference_time = 100; e.m_current_time = h.u(0, 4);
  if (h.b()) {e.InitializeGravity();}
  std::ostringstream o;
  o << (root ? "root" : "covariance") << " kind " << kind << " flags " << a << b << " log rate " << rate;
  h.ctx = o.str();
  double t = 100 + e.m_current_time;
  int reps = h.i(1, 4);
  Cols want;
  std::string file, ids = std::to_string(id);
  size_t rows = 0;
  bool least = false;
  if (kind == 0) {
    e.RegisterIMU(id, gen_imu(h, a, b), reg_cov(h, 12));
    fill_cov(h, e, root);
    ImuUpdater u(id, a, b, F.dir, rate, e.m_debug_logger);
    u.m_data_logger.SetLogRate(0);
    if (h.b()) {e.m_motion_detection_chi_squared = 1e9;}
    Vector3d acc, om;
    bool seen = h.b();
    u.m_initial_motion_detected = seen;
    double l = 0;
    std::vector<bool> still;
    for (int k = 0; k < reps; ++k) {
      t += h.u(0, 0.2);
      acc = h.v3(2) + Vector3d(0, 0, 9.8); om = h.v3();
      Matrix3d A = Matrix3d(h.diag(3)), B = Matrix3d(h.diag(3));
      u.UpdateEKF(e, t, acc, A, om, B);
      l = t - 100;
      still.push_back(!u.m_initial_motion_detected);
      ++rows;
    }
    file = "imu_" + ids + ".csv";
    const ImuState & s = e.m_state.imu_states.at(id);
    want = {{"time", l}, {"stationary", still.back() ? 1.0 : 0.0}, {"score", ANY}};
    put(want, "imu_pos", s.pos_i_in_b); putq(want, "imu_ang_pos", s.ang_i_to_b);
    put(want, "imu_acc_bias", s.acc_bias); put(want, "imu_gyr_bias", s.omg_bias);
    if (a) {put(want, "imu_ext_cov", vars(e, root, s.index_extrinsic, 6));}
    if (b) {put(want, "imu_int_cov", vars(e, root, s.index_intrinsic, 6));}
    put(want, "acc", acc); put(want, "omg", om);
    putn(want, "residual", 6); putn(want, "duration", 1);
  } else if (kind == 1) {
    Matrix3d c = h.diag(3);
    e.RegisterGPS(id, gen_gps(h, a), c);
    fill_cov(h, e, root);
    Vector3d ref = geo::gen(h, false), lla;
    double head = h.u(-3, 3), l = 0;
    e.SetGpsReference(ref, head);
    GpsUpdater u(id, a, F.dir, rate, e.m_debug_logger);
    u.m_data_logger.SetLogRate(0);
    Vector3d z = e.m_state.body_state.pos_b_in_l;
    for (int k = 0; k < reps; ++k) {
      t += h.u(0, 0.2);
      z += h.v3(0.3);
      lla = geo::lla(geo::from_enu(geo::to_enu(z, head), ref));
      u.UpdateEKF(e, t, lla, MatrixXd(h.diag(3)));
      l = t - 100;
      ++rows;
    }
    file = "gps_" + ids + ".csv";
    want = {{"time", l}, {"lat", lla(0)}, {"lon", lla(1)}, {"alt", lla(2)}, {"x", ANY}, {"y", ANY}, {"z", ANY}, {"ref_lat", ref(0)}, {"ref_lon", ref(1)}, {"ref_alt", ref(2)},
      {"ref_heading", head}, {"is_initialized", 1.0}};
    const GpsState & s = e.m_state.gps_states.at(id);
    if (a) {put(want, "ant_pos", s.pos_a_in_b); put(want, "gps_cov", vars(e, root, s.index, 3));}
    putn(want, "residual", 3); putn(want, "duration", 1);
    if (on) {
      drain(u.m_data_logger, 0);
      Csv c = csv(F.dir + file);
      Cols loc{{"x", z(0)}, {"y", z(1)}, {"z", z(2)}};
      for (auto & w : loc) {
        for (size_t k = 0; k < c.head.size(); ++k) {
          if (c.head[k] == w.first && !c.rows.empty() && k < c.rows.back().size()) {
            h.ok("gps: " + w.first + " is the local position measured", std::abs(atof(c.rows.back()[k].c_str()) - w.second) < 1e-3 * (1 + std::abs(w.second)), c.rows.back()[k]);
          }
        }
      }
    }
  } else {
    e.RegisterCamera(id, gen_cam(h, a), reg_cov(h, 6));
    e.RegisterFiducial(gen_fid(h, fid, b), reg_cov(h, 6));
    fill_cov(h, e, root);
    e.InitializeGravity();
    FiducialUpdater u(fid, id, b, a, F.dir, rate, e.m_debug_logger);
    BoardDetection d;
    double l = 0;
    for (int k = 0; k < reps; ++k) {
      t += h.u(0.001, 0.2);
      d.pos_f_in_c = h.v3(2); d.ang_f_to_c = h.q();
      d.pos_error = h.v3().cwiseAbs() + Vector3d::Constant(0.01); d.ang_error = h.v3().cwiseAbs() + Vector3d::Constant(0.01);
      u.UpdateEKF(e, t, d);
      l = t - 100;
      ++rows;
    }
    Csv any;
    file = "fiducial_" + ids + ".csv";
    const CamState & s = e.m_state.cam_states.at(id);
    const FidState & f = e.m_state.fid_states.at(fid);
    want = {{"time", l}, {"board", static_cast<double>(fid)}};
    put(want, "board_meas_pos", d.pos_f_in_c); putq(want, "board_meas_ang", d.ang_f_to_c);
    put(want, "cam_pos", s.pos_c_in_b); putq(want, "cam_ang_pos", s.ang_c_to_b);
    putn(want, "residual", 6);
    if (b) {put(want, "fid_pos", f.pos_f_in_l); putq(want, "fid_ang", f.ang_f_to_l); put(want, "fid_cov", vars(e, root, f.index, 6));}
    if (a) {put(want, "cam_cov", vars(e, root, s.index, 6));}
    putn(want, "duration", 1);
  }
  check(h, F, file, on, rows, want, least);
  // the body state and the clones
  e.LogBodyStateIfNeeded(h.i(0, 1000));
  drain(e.m_data_logger, 0);
  check(h, F, "body_state.csv", on, 1, body_cols(e, root), true);
  unsigned cam = static_cast<unsigned>(h.i(61, 70));
  e.RegisterCamera(cam, gen_cam(h, true), reg_cov(h, 6));
  int n = h.i(1, 3);
  Cols aug;
  drain(e.m_augmentation_logger, 0);
  size_t had = csv(F.dir + "aug_state.csv").rows.size();
  for (int k = 0; k < n; ++k) {
    e.PredictModel(e.m_current_time + 0.05);
    e.AugmentStateIfNeeded(cam, k);
    aug = {{"time", e.m_current_time}};
    put(aug, "aug_pos", e.m_state.body_state.pos_b_in_l); putq(aug, "aug_ang", e.m_state.body_state.ang_b_to_l);
  }
  drain(e.m_augmentation_logger, 0);
  check(h, F, "aug_state.csv", on, had + static_cast<size_t>(n), aug);
  h.ok("no file with logging off", on || F.list().empty());
}

static void tracks(H & h, Files & F)
{
  F.clear();
  bool root = h.b(), ce = h.b(), on = h.i(0, 3) != 0;
  Cam c = gen_cam_ekf(h, root, AugmentationType::ALL, ce, h.b(), h.i(0, 2), false);
  EKF & e = *c.e;
  e.m_augmenting_delta_time = 1e9;
  double rate = on ? h.u(1, 1e3) : 0;
  MsckfUpdater u(c.id, ce, F.dir, rate, h.u(0.5, 2), e.m_debug_logger);
  u.m_msckf_logger.SetLogRate(0); u.m_triangulation_logger.SetLogRate(0);
  u.m_use_true_triangulation = true;
  double t = e.m_current_time;
  h.ctx = std::string("camera tracks ") + (root ? "root" : "covariance") + " calibrated " + std::to_string(ce) + " log rate " + std::to_string(rate);
  int nt = 0;
  size_t rows = 0, points = 0;
  std::set<int> seen;
  for (int k = h.i(1, 3); k > 0; --k) {
    t += h.u(0, 0.02);
    FeatureTracks fts;
    nt = h.i(1, 4);
    for (int q = 0; q < nt; ++q) {
      fts.push_back(gen_track(h, c, t, 4, 12, 0.002, false, e.m_state));
      int id = h.i(0, 9999);
      for (auto & x : fts.back().track) {x.key_point.class_id = id;}
      seen.insert(id);
      points += 1;
    }
    u.UpdateEKF(e, 100 + t, fts, 1.0);
    ++rows;
  }
  const CamState & s = e.m_state.cam_states.at(c.id);
  Cols want{{"time", t}};
  put(want, "cam_pos", s.pos_c_in_b); putq(want, "cam_ang_pos", s.ang_c_to_b);
  if (ce) {put(want, "cam_cov", vars(e, root, s.index, 6));}
  want.push_back({"FeatureTracks", static_cast<double>(nt)});
  putn(want, "duration", 1);
  drain(u.m_msckf_logger, 0); drain(u.m_triangulation_logger, 0);
  Csv m = csv(F.dir + "msckf_" + std::to_string(c.id) + ".csv");
  h.ok("msckf: written exactly when enabled", on ? (m.there || rows == 0) : !m.there);
  if (m.there) {
    shape(h, "msckf", m);
    same_columns(h, "msckf", m, want);
    h.ok("msckf: at most a row for every update", m.rows.size() <= rows && !m.rows.empty());
    if (m.rows.size() == rows) {row(h, "msckf", m, m.rows.back(), want);}
  }
  for (auto & f : F.list()) {
    if (f.find("triang") == std::string::npos) {continue;}
    Csv x = csv(F.dir + f);
    shape(h, "triangulation", x);
    h.ok("triangulation: at most a row for every track", x.rows.size() <= points);
    for (auto & r : x.rows) {if (r.size() > 1) {h.ok("triangulation: the track's feature", seen.count(atoi(r[1].c_str())) == 1, r[1]);}}
  }
  h.ok("no file with logging off", on || F.list().empty());
}

// ---------------------------------------------------------------- the simulated truth
static void truth(H & h, Files & F)
{
  F.clear();
  auto log = std::make_shared<DebugLogger>(LogLevel::FATAL, "");
  double span = h.u(0.2, 3), rate = h.u(0.7, 6);
  TruthEngineCyclic e(h.v3(1), h.v3(1), h.v3(2), h.v3(1), h.u(0.2, 1), 0.1, 0.0, span, log);
  int ni = h.i(0, 2), nc = h.i(0, 2), ng = h.i(0, 2), nb = h.i(0, 3);
  unsigned id = 0;
  for (int k = 0; k < ni; ++k) {
    ++id;
    e.SetImuPosition(id, h.v3()); e.SetImuAngularPosition(id, h.q()); e.SetImuAccelerometerBias(id, h.v3()); e.SetImuGyroscopeBias(id, h.v3());
  }
  for (int k = 0; k < nc; ++k) {++id; e.SetCameraPosition(id, h.v3()); e.SetCameraAngularPosition(id, h.q());}
  for (int k = 0; k < ng; ++k) {++id; e.SetGpsPosition(id, h.v3());}
  Vector3d lla = geo::gen(h, false);
  double head = h.u(-3, 3);
  e.SetLocalPosition(lla); e.SetLocalHeading(head);
  std::map<unsigned, std::pair<Vector3d, Quaterniond>> boards;
  for (int k = 0; k < nb; ++k) {
    unsigned b = static_cast<unsigned>(h.i(1, 20));
    boards[b] = {h.v3(5), h.q()};
    e.SetBoardPosition(b, boards[b].first); e.SetBoardOrientation(b, boards[b].second);
  }
  e.m_feature_points.clear();
  int nf = h.i(0, 4);
  for (int k = 0; k < nf; ++k) {Vector3d x = h.v3(9); e.m_feature_points.push_back(cv::Point3d(x(0), x(1), x(2)));}
  std::ostringstream o;
  o << "truth imu " << ni << " cam " << nc << " gps " << ng << " boards " << boards.size() << " features " << nf << " span " << span << " rate " << rate;
  h.ctx = o.str();
  e.WriteTruthData(rate, F.dir);
  Csv c = csv(F.dir + "body_truth.csv");

  shape(h, "body truth", c);
  size_t n = static_cast<size_t>(std::floor((span + 1.0) * rate));
  h.ok("body truth: written when there are samples", c.there == (n > 0));
  h.ok("body truth: a row for every sample up to one second past the end", c.rows.size() == n, std::to_string(c.rows.size()) + " expected " + std::to_string(n));
  for (size_t k = 0; k < c.rows.size(); ++k) {
    double t = static_cast<double>(k) / rate;
    Cols w{{"time", t}};
    put(w, "body_pos", e.GetBodyPosition(t)); put(w, "body_vel", e.GetBodyVelocity(t)); put(w, "body_acc", Vector3d(e.GetBodyAcceleration(t) + Vector3d(0, 0, 9.80665)));
    putq(w, "body_ang_pos", e.GetBodyAngularPosition(t)); put(w, "body_ang_vel", e.GetBodyAngularRate(t)); put(w, "body_ang_acc", e.GetBodyAngularAcceleration(t));
    unsigned s = 0;
    auto nm = [&](const char * x) {return std::string(x) + "_" + std::to_string(s);};
    for (int q = 0; q < ni; ++q) {
      ++s;
      put(w, nm("imu_pos"), e.m_imu_pos.at(s)); putq(w, nm("imu_ang_pos"), e.m_imu_ang_pos.at(s));
      put(w, nm("imu_acc_bias"), e.m_imu_acc_bias.at(s)); put(w, nm("imu_gyr_bias"), e.m_imu_gyro_bias.at(s));
    }
    for (int q = 0; q < nc; ++q) {++s; put(w, nm("cam_pos"), e.m_cam_pos.at(s)); putq(w, nm("cam_ang_pos"), e.m_cam_ang_pos.at(s));}
    for (int q = 0; q < ng; ++q) {++s; put(w, nm("gps_pos"), e.m_gps_pos.at(s));}
    if (ng) {w.push_back({"ref_lat", lla(0)}); w.push_back({"ref_lon", lla(1)}); w.push_back({"ref_alt", lla(2)}); w.push_back({"ref_heading", head});}
    if (k == 0) {same_columns(h, "body truth", c, w);}
    row(h, "body truth", c, c.rows[k], w);
  }
  Csv b = csv(F.dir + "board_truth.csv");
  h.ok("board truth: written exactly when there are boards", b.there == !boards.empty());
  shape(h, "board truth", b);
  h.ok("board truth: a row for every board", b.rows.size() == boards.size());
  size_t k = 0;
  for (auto & x : boards) {
    if (k >= b.rows.size()) {break;}
    const Vector3d & y = x.second.first;
    const Quaterniond & q = x.second.second;
    row(h, "board truth", b, b.rows[k++], {{"board", static_cast<double>(x.first)}, {"pos_x", y(0)}, {"pos_y", y(1)}, {"pos_z", y(2)}, {"quat_w", q.w()}, {"quat_x", q.x()}, {"quat_y", q.y()}, {"quat_z", q.z()}});
  }
  Csv f = csv(F.dir + "feature_points.csv");
  shape(h, "feature truth", f);
  h.ok("feature truth: a row for every feature", f.rows.size() == static_cast<size_t>(nf));
  for (size_t j = 0; j < f.rows.size(); ++j) {
    auto & x = e.m_feature_points[j];
    row(h, "feature truth", f, f.rows[j], {{"Feature", static_cast<double>(j)}, {"x", x.x}, {"y", x.y}, {"z", x.z}});
  }
}

void run(H & h)
{
  Files F;
  for (h.cases = 0; h.cases < h.iters; ++h.cases) {
    text(h);
    switch (h.i(0, 4)) {
      case 0: logger(h, F); break;
      case 1: truth(h, F); break;
      case 2: tracks(h, F); break;
      default: filter(h, F);
    }
  }
}
