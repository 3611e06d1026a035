"""Sensors and trackers: construction registers the configured state; callbacks hand every message to the filter."""
from common import *
from spec import *
import spec_ekf as SE
import lib
from spec_gps import Box, v3
from spec_sim import TRUTH, SENSOR


def c_register(kind):
    """Register* (contract of the registration): recorded; the filter is what the registration property says"""
    def c(I_, this, args, f):
        a = [lib.val(I_, x) for x in args]
        I_.events.append(("register", kind, this, a))
        return None
    return c


def c_update(kind):
    """UpdateEKF of an updater: recorded with the updater's contents and the arguments"""
    def c(I_, this, args, f):
        I_.events.append(("update", kind, I_.load(this), args[0], [lib.val(I_, x) for x in args[1:]]))
        return None
    return c


REG = {"EKF::RegisterIMU": c_register("imu"), "EKF::RegisterGPS": c_register("gps"), "EKF::RegisterCamera": c_register("cam"), "EKF::RegisterFiducial": c_register("fid")}
UPD = {"ImuUpdater::UpdateEKF": c_update("imu"), "GpsUpdater::UpdateEKF": c_update("gps"), "FiducialUpdater::UpdateEKF": c_update("fid"), "MsckfUpdater::UpdateEKF": c_update("msckf")}


def params(I_, cls, nvar=None, inner=()):
    """configured parameters; the filter they point to"""
    I_.type_inv = {}
    ekf = I_.alloc(Opaque("the filter"))
    o = I_.sym(cls, "par")
    o = o.set("ekf", Ptr(ekf))
    if nvar:
        I_.assume(eq(o.f["variance"].r, I(nvar)))
        I_.assume(eq(o.f["variance"].c, I(1)))
    return o, ekf


def same(p, what, a, b, extra=()):
    p.prove_eq(what, a, b, extra)


def diag_is(p, what, C, v, lo, n, bound, extra=()):
    """C is the diagonal matrix of entries lo..lo+n-1 of v, at least the bound"""
    p.prove(what + ": square of its size", and_(eq(C.r, I(n)), eq(C.c, I(n))), extra)
    i, j = var("i!", "I"), var("j!", "I")
    c = list(extra) + [le(I(0), i), lt(i, I(n)), le(I(0), j), lt(j, I(n))]
    x = elem(v, add(I(lo), i), I(0))
    if bound is not None:
        x = ite(lt(x, R(bound)), R(bound), x)
    p.prove(what + ": variances on the diagonal", eq(elem(C, i, i), x), c)
    p.prove(what + ": no correlations", eq(elem(C, i, j), R(0)), c + [not_(eq(i, j))])


def events(I_, kind): return [e for e in I_.events if e[0] == kind]


def P26(ctx):
    h = Box()

    def setup(cls, nvar=None):
        def s(I_):
            o, ekf = params(I_, cls, nvar)
            h.v = (o, ekf)
            return None, [I_.alloc(o)]
        return s

    def one(I_, p, kind):
        ev = events(I_, "register")
        p.P.record("registers with the filter exactly once", len(ev) == 1 and ev[0][1] == kind, "structure", time.time())
        if len(ev) != 1:
            return None
        p.P.record("the filter it was given", isinstance(ev[0][2], LV) and ev[0][2].loc == h.v[1].loc, "structure", time.time())
        return ev[0][3]

    def logger(p, L, o, rate=True):
        r = o.f["data_log_rate"]
        p.prove("its log is written exactly when a rate is configured", eq(L.f["m_logging_on"], not_(eq(r, R(0)))))
        if rate:
            p.prove("its log has the configured rate", eq(L.f["m_rate"], r))

    def tracks(p, T, o):
        for f in ("min_track_length", "max_track_length"):
            p.prove("configured " + f, eq(T.f["m_" + f], o.f[f]))

    def identity(p, T, counter):
        """the class counter, the largest identifier given so far, goes up and is the new identifier: none is given twice"""
        I_ = p.I
        lv = I_.globals.get(counter)
        if lv is None:
            p.P.record("a new identifier", False, "structure", time.time())
            return
        old, new = I_.static0[counter], I_.load(lv)
        p.prove("a new identifier", and_(eq(T.f["m_id"], new), lt(old, new)))

    def post_imu(I_, p):
        o, ekf = h.v
        T = p.load(p.this)
        a = one(I_, p, "imu")
        if a is None:
            return
        id_, s, C = a
        e, i = o.f["is_extrinsic"], o.f["is_intrinsic"]
        p.prove("under the sensor's identifier", eq(id_, T.f["m_id"]))
        identity(p, T, "Sensor::m_sensor_count")
        for f in ("pos_i_in_b", "ang_i_to_b", "acc_bias", "omg_bias", "pos_stability", "ang_stability", "acc_bias_stability", "omg_bias_stability", "is_extrinsic", "is_intrinsic"):
            same(p, "configured " + f, s.f[f], o.f[f])
        diag_is(p, "covariance of pose and biases", C, o.f["variance"], 0, 12, "0.000001", [e, i])
        diag_is(p, "covariance of the pose", C, o.f["variance"], 0, 6, "0.000001", [e, not_(i)])
        diag_is(p, "covariance of the biases", C, o.f["variance"], 6, 6, "0.000001", [not_(e), i])
        u = T.f["m_imu_updater"]
        p.prove("its updater has the same identifier", eq(u.f["m_id"], T.f["m_id"]))
        p.prove("its updater has the same flags", and_(eq(u.f["m_is_extrinsic"], e), eq(u.f["m_is_intrinsic"], i)))
        same(p, "rate", T.f["m_rate"], o.f["rate"])
        p.P.record("works on the filter it was given", T.f["m_ekf"].lv.loc == ekf.loc, "structure", time.time())
        logger(p, u.f["m_data_logger"], o)
    CON = dict(REG, **SE.LOGC)
    ctx.check("IMU::IMU", setup("IMU::Parameters", 12), post_imu, contracts=CON)

    def post_gps(I_, p):
        o, ekf = h.v
        T = p.load(p.this)
        a = one(I_, p, "gps")
        if a is None:
            return
        id_, s, C = a
        p.prove("under the sensor's identifier", eq(id_, T.f["m_id"]))
        identity(p, T, "Sensor::m_sensor_count")
        for f in ("pos_a_in_b", "pos_stability", "is_extrinsic"):
            same(p, "configured " + f, s.f[f], o.f[f])
        diag_is(p, "covariance of the antenna", C, o.f["variance"], 0, 3, None)
        u = T.f["m_gps_updater"]
        p.prove("its updater has the same identifier", eq(u.f["m_id"], T.f["m_id"]))
        p.prove("its updater has the same flag", eq(u.f["m_is_extrinsic"], o.f["is_extrinsic"]))
        same(p, "rate", T.f["m_rate"], o.f["rate"])
        p.P.record("works on the filter it was given", T.f["m_ekf"].lv.loc == ekf.loc, "structure", time.time())
        logger(p, u.f["m_data_logger"], o)
    ctx.check("GPS::GPS", setup("GPS::Parameters"), post_gps, contracts=CON)

    def post_cam(I_, p):
        o, ekf = h.v
        T = p.load(p.this)
        a = one(I_, p, "cam")
        if a is None:
            return
        id_, s, C = a
        p.prove("under the sensor's identifier", eq(id_, T.f["m_id"]))
        identity(p, T, "Sensor::m_sensor_count")
        for f in ("pos_c_in_b", "ang_c_to_b", "pos_stability", "ang_stability", "is_extrinsic", "rate", "intrinsics"):
            same(p, "configured " + f, s.f[f], o.f[f])
        diag_is(p, "covariance of the pose", C, o.f["variance"], 0, 6, "0.000001")
        same(p, "rate", T.f["m_rate"], o.f["rate"])
        p.P.record("works on the filter it was given", T.f["m_ekf"].lv.loc == ekf.loc, "structure", time.time())
    ctx.check("Camera::Camera", setup("Camera::Parameters", 6), post_cam, contracts=CON)

    def post_fid(I_, p):
        o, ekf = h.v
        T = p.load(p.this)
        a = one(I_, p, "fid")
        if a is None:
            return
        s, C = a
        p.prove("under the configured identifier", eq(s.f["id"], o.f["id"]))
        for f in ("pos_f_in_l", "ang_f_to_l", "is_extrinsic"):
            same(p, "configured " + f, s.f[f], o.f[f])
        diag_is(p, "covariance of the pose", C, o.f["variance"], 0, 6, None)
        u = T.f["m_fiducial_updater"]
        p.prove("its updater has the marker's identifier", eq(u.f["m_id"], o.f["id"]))
        p.prove("its updater has the camera's identifier", and_(eq(u.f["m_camera_id"], o.f["camera_id"]), eq(T.f["m_camera_id"], o.f["camera_id"])))
        p.prove("its updater has the same flags", and_(eq(u.f["m_is_fid_extrinsic"], o.f["is_extrinsic"]), eq(u.f["m_is_cam_extrinsic"], o.f["is_cam_extrinsic"])))
        for k in range(3):
            p.prove(f"reported position error {k}", eq(elem(T.f["m_pos_error"], k, 0), elem(o.f["variance"], k, 0)))
            p.prove(f"reported orientation error {k}", eq(elem(T.f["m_ang_error"], k, 0), elem(o.f["variance"], 3 + k, 0)))
        tracks(p, T, o)
        identity(p, T, "Tracker::m_tracker_count")
        p.P.record("works on the filter it was given", T.f["m_ekf"].lv.loc == ekf.loc, "structure", time.time())
        logger(p, u.f["m_fiducial_logger"], o, rate=False)
    ctx.check("FiducialTracker::FiducialTracker", setup("FiducialTracker::Parameters", 6), post_fid, contracts=CON)

    def post_feat(I_, p):
        o, ekf = h.v
        T = p.load(p.this)
        p.P.record("registers nothing", not events(I_, "register"), "structure", time.time())
        u = T.f["m_msckf_updater"]
        p.prove("its updater has the camera's identifier", and_(eq(u.f["m_id"], o.f["camera_id"]), eq(T.f["m_camera_id"], o.f["camera_id"])))
        p.prove("its updater has the camera's flag", eq(u.f["m_is_cam_extrinsic"], o.f["is_cam_extrinsic"]))
        p.prove("configured smallest feature distance", eq(u.f["m_min_feat_dist"], o.f["min_feat_dist"]))
        p.prove("configured pixel error", eq(T.f["m_px_error"], o.f["px_error"]))
        tracks(p, T, o)
        identity(p, T, "Tracker::m_tracker_count")
        p.P.record("works on the filter it was given", T.f["m_ekf"].lv.loc == ekf.loc, "structure", time.time())
        logger(p, u.f["m_msckf_logger"], o)
        logger(p, u.f["m_triangulation_logger"], o)
    ctx.check("FeatureTracker::FeatureTracker", setup("FeatureTracker::Parameters"), post_feat, contracts=CON)
    # simulated sensors without errors: the truth is the configuration
    def setup_sim(cls, inner, nvar=None):
        def s(I_):
            o, ekf = params_sim(I_, cls, inner, nvar)
            truth = I_.alloc(I_.sym("TruthEngine", "truth"))
            h.v = (o, ekf)
            h.truth = truth
            return None, [I_.alloc(o), Ptr(truth)]
        return s

    def truths(I_, p):
        return {e[1]: e[2:] for e in I_.events if e[0] == "truth"}, len(events(I_, "truth"))

    def post_sim(what, inner, flag="m_no_errors"):
        def post(I_, p):
            o, ekf = h.v
            T = p.load(p.this)
            d, n = truths(I_, p)
            c = [o.f["no_errors"]]
            p.P.record("sets each true value once", set(d) == set(what) and n == len(what), "structure", time.time())
            if set(d) != set(what):
                return
            for s, f in what.items():
                lv, a = d[s]
                p.P.record("in the truth engine it was given", lv.loc == h.truth.loc, "structure", time.time())
                p.prove(f"true {f}: under its identifier", eq(a[0], T.f["m_id"]))
                same(p, f"true {f} is the configured one", a[1], o.f[inner].f[f], c)
            p.prove("the error-free mode is as configured", eq(T.f["m_no_errors"], o.f["no_errors"]))
            if "m_time_error" in T.f:
                p.prove("no time error without errors", eq(T.f["m_time_error"], R(0)), c)
                p.prove("configured time error", eq(T.f["m_time_error"], o.f["time_error"]), [not_(o.f["no_errors"])])
            p.P.record("works on the truth engine it was given", isinstance(T.f["m_truth"], Ptr) and T.f["m_truth"].lv.loc == h.truth.loc, "structure", time.time())
            for f in [x for x in o.f if x.endswith("_error") and x != "time_error" and "m_" + x in T.f]:
                same(p, "configured " + f, T.f["m_" + f], o.f[f])
        return post
    SIMC = dict(CON, **SETTRUTH, **RNG)
    ctx.check("SimIMU::SimIMU", setup_sim("SimIMU::Parameters", "imu_params", 12), post_sim({"SetImuPosition": "pos_i_in_b", "SetImuAngularPosition": "ang_i_to_b",
              "SetImuAccelerometerBias": "acc_bias", "SetImuGyroscopeBias": "omg_bias"}, "imu_params"), contracts=SIMC)
    ctx.check("SimGPS::SimGPS", setup_sim("SimGPS::Parameters", "gps_params"), post_sim({"SetGpsPosition": "pos_a_in_b"}, "gps_params"), contracts=SIMC)
    ctx.check("SimCamera::SimCamera", setup_sim("SimCamera::Parameters", "cam_params", 6), post_sim({"SetCameraPosition": "pos_c_in_b", "SetCameraAngularPosition": "ang_c_to_b",
              "SetCameraIntrinsics": "intrinsics"}, "cam_params"), contracts=SIMC)
    ctx.check("SimFiducialTracker::SimFiducialTracker", setup_sim("SimFiducialTracker::Parameters", "fiducial_params", 6),
              post_sim({"SetBoardPosition": "pos_f_in_l", "SetBoardOrientation": "ang_f_to_l"}, "fiducial_params"), contracts=SIMC)

    def setup_simfeat(I_):
        o, ekf = params_sim(I_, "SimFeatureTracker::Parameters", "tracker_params", None)
        truth = I_.alloc(I_.sym("TruthEngine", "truth"))
        h.v = (o, ekf)
        h.truth = truth
        return None, [I_.alloc(o), Ptr(truth)]

    def post_simfeat(I_, p):
        o, ekf = h.v
        T = p.load(p.this)
        q = o.f["tracker_params"]
        u = T.f["m_msckf_updater"]
        p.prove("its updater has the camera's identifier", and_(eq(u.f["m_id"], q.f["camera_id"]), eq(T.f["m_camera_id"], q.f["camera_id"])))
        p.prove("its updater has the camera's flag", eq(u.f["m_is_cam_extrinsic"], q.f["is_cam_extrinsic"]))
        p.prove("configured pixel error", eq(T.f["m_px_error"], q.f["px_error"]))
        tracks(p, T, q)
        identity(p, T, "Tracker::m_tracker_count")
        p.prove("configured number of features", eq(T.f["m_feature_count"], o.f["feature_count"]))
        p.prove("the error-free mode is as configured", eq(T.f["m_no_errors"], o.f["no_errors"]))
        p.P.record("works on the filter it was given", T.f["m_ekf"].lv.loc == ekf.loc, "structure", time.time())
        p.P.record("works on the truth engine it was given", isinstance(T.f["m_truth"], Ptr) and T.f["m_truth"].lv.loc == h.truth.loc, "structure", time.time())
    ctx.check("SimFeatureTracker::SimFeatureTracker", setup_simfeat, post_simfeat, contracts=SIMC)

    # every message becomes one update with its own values
    def setup_cb(cls, msg):
        def s(I_):
            I_.type_inv = {}
            ekf = I_.alloc(Opaque("the filter"))
            o = I_.sym(cls, "s").set("m_ekf", Ptr(ekf))
            m = I_.sym(msg, "m")
            lv = I_.alloc(o)
            h.v = (o, m, ekf)
            return lv, [I_.alloc(m)]
        return s

    def post_cb(kind, updater, fields):
        def post(I_, p):
            o, m, ekf = h.v
            ev = events(I_, "update")
            p.P.record("every message makes exactly one update", len(ev) == 1 and ev[0][1] == kind, "structure", time.time())
            if len(ev) != 1:
                return
            _, _, u, at, a = ev[0]
            p.P.record("of the filter it was given", isinstance(at, LV) and at.loc == ekf.loc, "structure", time.time())
            same(p, "by its own updater", u, o.f[updater])
            for x, f in zip(a, fields):
                same(p, "with the message's " + f, x, m.f[f])
            p.P.record("with all of the message", len(a) == len(fields), "structure", time.time())
        return post
    CB = dict(UPD, **SE.LOGC)
    ctx.check("IMU::Callback", setup_cb("IMU", "ImuMessage"), post_cb("imu", "m_imu_updater", ["time", "acceleration", "acceleration_covariance", "angular_rate", "angular_rate_covariance"]), contracts=CB)
    ctx.check("GPS::Callback", setup_cb("GPS", "GpsMessage"), post_cb("gps", "m_gps_updater", ["time", "gps_lla", "pos_covariance"]), contracts=CB)

    # the truth engine's notebook: the last value set for an identifier is the one reported for it, others are untouched
    for setter, getter, cls in PAIRS:
        def s_set(I_, setter=setter, cls=cls):
            I_.type_inv = {}
            e = I_.sym("TruthEngine", "truth")
            lv = I_.alloc(e)
            i, v = I_.sym("unsigned int", "id"), I_.sym(cls, "value")
            other = I_.sym("unsigned int", "other")
            h.v = (lv, i, v, other, I_.alloc(e))
            # the other identifier has been set before: it is among the keys of every notebook page
            for f, M in e.f.items():
                if isinstance(M, Map):
                    kk = I_.sym("unsigned int", "place." + f)
                    I_.assume(lt(kk, M.n))
                    I_.assume(eq(M.key(kk), other))
            return lv, [i, I_.alloc(v)]
        def p_set(I_, p, getter=getter):
            lv, i, v, j, lv0 = h.v
            g = ctx.fn("TruthEngine::" + getter)
            if g is None:
                raise Unsupported("no " + getter)
            sn = I_.snap()
            def read(at, x):
                out = []
                for (kind, r, st, pc) in I_.explore(lambda: I_.inline(g, at, [x])):
                    if kind != "abort":
                        out.append((I_.load(r) if isinstance(r, LV) else r, pc))
                I_.restore(sn)
                return out
            for r, pc in read(lv, i):
                same(p, "the value set is the one reported", r, v, pc)
            new, old = read(lv, j), read(lv0, j)
            for r, pc in new:
                for r0, pc0 in old:
                    same(p, "what is reported for another identifier is kept", r, r0, pc + pc0 + [not_(eq(i, j))])
        ctx.check("TruthEngine::" + setter, s_set, p_set)


PAIRS = [("SetImuPosition", "GetImuPosition", "Eigen::Vector3d"), ("SetImuAngularPosition", "GetImuAngularPosition", "Eigen::Quaterniond"),
         ("SetImuAccelerometerBias", "GetImuAccelerometerBias", "Eigen::Vector3d"), ("SetImuGyroscopeBias", "GetImuGyroscopeBias", "Eigen::Vector3d"),
         ("SetCameraPosition", "GetCameraPosition", "Eigen::Vector3d"), ("SetCameraAngularPosition", "GetCameraAngularPosition", "Eigen::Quaterniond"),
         ("SetCameraIntrinsics", "GetCameraIntrinsics", "Intrinsics"), ("SetGpsPosition", "GetGpsPosition", "Eigen::Vector3d"),
         ("SetBoardPosition", "GetBoardPosition", "Eigen::Vector3d"), ("SetBoardOrientation", "GetBoardOrientation", "Eigen::Quaterniond")]


def c_settruth(name):
    def c(I_, this, args, f):
        I_.events.append(("truth", name, this, [lib.val(I_, x) for x in args]))
        return None
    return c


SETTRUTH = {"TruthEngine::" + s: c_settruth(s) for s, _, _ in PAIRS}


def c_any(t):
    """an arbitrary value (a random draw)"""
    def c(I_, this, args, f):
        return I_.sym(t, f"rng{I_.nloc}.{len(I_.events)}.{next(_n)}")
    return c


import itertools
_n = itertools.count()
RNG = {"SimRNG::VecNormRand": c_any("Eigen::Vector3d"), "SimRNG::QuatNormRand": c_any("Eigen::Quaterniond"), "SimRNG::NormRand": c_any("double"), "SimRNG::UniRand": c_any("double")}


def params_sim(I_, cls, inner, nvar):
    I_.type_inv = {}
    ekf = I_.alloc(Opaque("the filter"))
    o = I_.sym(cls, "par")
    q = o.f[inner].set("ekf", Ptr(ekf))
    if nvar:
        I_.assume(eq(q.f["variance"].r, I(nvar)))
        I_.assume(eq(q.f["variance"].c, I(1)))
    return o.set(inner, q), ekf
