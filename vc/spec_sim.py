"""Simulated truth and simulated sensors."""
from common import *
from spec import *
from spec_gps import comps, radd, v3, Box

SENSOR = enum_values("SensorType")


def engine(I_, cls):
    e = I_.sym(cls, "truth")
    return e, I_.alloc(e)


def cyc(e, t, pos):
    """raised cosines from the offset, at rest before the start: three terms in the time since the start"""
    amp = e.f["m_pos_amplitude" if pos else "m_ang_amplitude"]
    fr, off = (e.f["m_pos_frequency"], e.f["m_pos_offset"]) if pos else (e.f["m_ang_frequency"], e.f["m_ang_offset"])
    w = mul(R(2), R(PI_))
    return [add(elem(off, k, 0), mul(div(amp, R(2)), sub(R(1), fn("cos", mul(mul(elem(fr, k, 0), w), t))))) for k in range(3)]


PI_ = Fr("3.14159265358979323846")


def body_rate(rpy, d):
    """body-frame rate of yaw-pitch-roll angles"""
    r, p, _ = rpy
    S, C = (lambda x: fn("sin", x)), (lambda x: fn("cos", x))
    return [sub(d[0], mul(S(p), d[2])),
            add(mul(C(r), d[1]), mul(mul(S(r), C(p)), d[2])),
            sub(mul(mul(C(r), C(p)), d[2]), mul(S(r), d[1]))]


def P22(ctx):
    h = Box()
    T = "TruthEngineCyclic"

    def setup(I_):
        e, lv = engine(I_, T)
        t = var("t", "R")
        h.v = (e, t, sub(t, e.f["m_stationary_time"]))
        return lv, [t]

    def curve(what, pos, order, still):
        def post(I_, p):
            e, t, s = h.v
            u = var("u", "R")
            x = cyc(e, u, pos)
            for _ in range(order):
                x = [diff(y, u) for y in x]
            x = [subst(y, {u: s}) for y in x]
            for k in range(3):
                p.prove(f"{what} {k}: moving", eq(elem(p.retv, k, 0), x[k]), [le(R(0), s)])
                p.prove(f"{what} {k}: at rest", eq(elem(p.retv, k, 0), still(e, k)), [lt(s, R(0))])
        return post
    zero = lambda e, k: R(0)
    ctx.check(T + "::GetBodyPosition", setup, curve("position", True, 0, lambda e, k: elem(e.f["m_pos_offset"], k, 0)))
    ctx.check(T + "::GetBodyVelocity", setup, curve("derivative of the position", True, 1, zero))
    ctx.check(T + "::GetBodyAcceleration", setup, curve("second derivative of the position", True, 2, zero))
    ctx.check(T + "::GetBodyRollPitchYaw", setup, curve("angle", False, 0, lambda e, k: elem(e.f["m_ang_offset"], k, 0)))

    def angles(e, s):
        u = var("u", "R")
        x = cyc(e, u, False)
        at = lambda ys: [subst(y, {u: s}) for y in ys]
        d = [diff(y, u) for y in x]
        w = body_rate(x, d)
        return at(x), at(d), at(w), at([diff(y, u) for y in w])

    def post_q(I_, p):
        e, t, s = h.v
        rpy = [ite(lt(s, R(0)), elem(e.f["m_ang_offset"], k, 0), y) for k, y in enumerate(angles(e, s)[0])]
        def Q(ax, a):
            a = div(a, R(2))
            return Quat(fn("cos", a), *[fn("sin", a) if i == ax else R(0) for i in range(3)])
        for c, y in (("moving", angles(e, s)[0]), ("at rest", [elem(e.f["m_ang_offset"], k, 0) for k in range(3)])):
            q = qmul(qmul(Q(2, y[2]), Q(1, y[1])), Q(0, y[0]))
            for n in "wxyz":
                p.prove(f"{c}: yaw, then pitch, then roll ({n})", eq(getattr(p.retv, n), getattr(q, n)), [le(R(0), s) if c == "moving" else lt(s, R(0))])
    ctx.check(T + "::GetBodyAngularPosition", setup, post_q)

    def rate(j, what):
        def post(I_, p):
            e, t, s = h.v
            x = angles(e, s)[j]
            for k in range(3):
                p.prove(f"{what} {k}: moving", eq(elem(p.retv, k, 0), x[k]), [le(R(0), s)])
                p.prove(f"{what} {k}: at rest", eq(elem(p.retv, k, 0), R(0)), [lt(s, R(0))])
            if j == 2:      # the rate is that of the orientation: R' = R [w]x for R = Rz Ry Rx
                a, da = [var(f"a{k}", "R") for k in range(3)], [var(f"da{k}", "R") for k in range(3)]
                c, n = [fn("cos", z) for z in a], [fn("sin", z) for z in a]
                Rx = mdense([[R(1), R(0), R(0)], [R(0), c[0], neg(n[0])], [R(0), n[0], c[0]]])
                Ry = mdense([[c[1], R(0), n[1]], [R(0), R(1), R(0)], [neg(n[1]), R(0), c[1]]])
                Rz = mdense([[c[2], neg(n[2]), R(0)], [n[2], c[2], R(0)], [R(0), R(0), R(1)]])
                M = norm_small(mmul(mmul(Rz, Ry), Rx))
                w = body_rate(a, da)
                W = mdense([[R(0), neg(w[2]), w[1]], [w[2], R(0), neg(w[0])], [neg(w[1]), w[0], R(0)]])
                dm = dict(zip(a, da))
                D = mdense([[diff(elem(M, i, k), a[0], dm) for k in range(3)] for i in range(3)])
                p.prove_mat("it is the rate of the yaw-pitch-roll orientation in the body frame", D, norm_small(mmul(M, W)))
        return post
    ctx.check(T + "::GetBodyAngularRate", setup, rate(2, "body-frame rate of the orientation"))
    ctx.check(T + "::GetBodyAngularAcceleration", setup, rate(3, "derivative of the body-frame rate"))

    # spline: derivatives of the interpolating curve by time
    S = "TruthEngineSpline"

    def setup_s(I_):
        e, lv = engine(I_, S)
        t = var("t", "R")
        dur = sub(e.f["m_max_time"], e.f["m_stationary_time"])
        I_.assume(lt(R(0), dur))
        I_.assume(le(R(0), e.f["m_stationary_time"]))
        h.v = (e, t, sub(t, e.f["m_stationary_time"]), dur)
        return lv, [t]

    def spline(which, order):
        def post(I_, p):
            e, t, s, dur = h.v
            sp = e.f[which]
            u = div(s, dur)
            x = lib.spline_derivative(sp, u, order)
            for k in range(3):
                g = elem(x, k, 0)
                for _ in range(order):
                    g = div(g, dur)
                p.prove(f"component {k}: moving", eq(elem(p.retv, k, 0), g), [le(R(0), s), le(s, dur)])
                p.prove(f"component {k}: before the start", eq(elem(p.retv, k, 0), R(0)), [lt(s, R(0))])
        return post
    con = {S + "::IsSplineInvalid": lambda I_, this, args, f: B(False)}
    for fn_, order in (("GetBodyPosition", 0), ("GetBodyVelocity", 1), ("GetBodyAcceleration", 2)):
        ctx.check(S + "::" + fn_, setup_s, spline("m_pos_spline", order), contracts=con)


# ---------------------------------------------------------------- simulated sensors without errors
def c_vec(tag):
    """a truth getter: an arbitrary function of its argument"""
    def c(I_, this, args, f):
        a = [lib.val(I_, x) for x in args]
        return vec(*[app(f"{tag}.{k}", a, "R") for k in range(3)])
    return c


def c_quat(tag):
    def c(I_, this, args, f):
        a = [lib.val(I_, x) for x in args]
        q = Quat(*[app(f"{tag}.{n}", a, "R") for n in "wxyz"])
        I_.unit_quat(q)
        return q
    return c


TRUTH = {}
for _n in ("GetBodyPosition", "GetBodyVelocity", "GetBodyAcceleration", "GetBodyAngularRate", "GetBodyAngularAcceleration",
           "GetImuPosition", "GetImuAccelerometerBias", "GetImuGyroscopeBias", "GetCameraPosition", "GetGpsPosition", "GetBoardPosition", "GetLocalPosition"):
    TRUTH["TruthEngine::" + _n] = c_vec(_n)
for _n in ("GetBodyAngularPosition", "GetImuAngularPosition", "GetCameraAngularPosition", "GetBoardOrientation"):
    TRUTH["TruthEngine::" + _n] = c_quat(_n)
TRUTH["TruthEngine::GetLocalHeading"] = lambda I_, this, args, f: var("GetLocalHeading", "R")


def P23(ctx):
    h = Box()

    def sensor(cls):
        def setup(I_):
            s = I_.sym(cls, "s")
            truth = I_.alloc(I_.sym("TruthEngine", "truth"))
            s = s.set("m_truth", Ptr(truth)) if "m_truth" in s.f else s
            h.v = (s, truth)
            return I_.alloc(s), []
        return setup

    def no_errors(I_, s):
        """the error-free mode, a positive rate and a positive duration"""
        for c in (s.f["m_no_errors"], lt(R(0), s.f["m_rate"]) if "m_rate" in s.f else TRUE):
            I_.assume(c)

    def setup_t(I_):
        lv, a = sensor("SimSensor")(I_)
        s, truth = h.v
        rate = var("rate", "R")
        I_.assume(lt(R(0), rate))
        I_.assume(lt(R(0), I_.load(truth).f["m_max_time"]))
        I_.assume(s.f["m_no_errors"])
        h.rate = rate
        return lv, [rate]

    def times(p, n, at, rate, truth):
        T = p.load(truth).f["m_max_time"]
        j = var("j!", "I")
        p.prove("as many as fit into the duration", eq(n, floori(mul(T, rate))))
        if n is I(0):
            return
        p.prove("evenly spaced from zero", eq(at(j), div(toreal(j), rate)), [le(I(0), j), lt(j, n)])

    def post_t(I_, p):
        s, truth = h.v
        times(p, p.retv.n, p.retv.at, h.rate, truth)
    ctx.check("SimSensor::GenerateMeasurementTimes", setup_t, post_t)

    def setup_m(cls):
        def setup(I_):
            lv, a = sensor(cls)(I_)
            s, truth = h.v
            I_.assume(lt(R(0), s.f["m_rate"]))
            I_.assume(lt(R(0), I_.load(truth).f["m_max_time"]))
            I_.assume(s.f["m_no_errors"])
            return lv, []
        return setup

    def truth_at(I_, n, *a): return TRUTH["TruthEngine::" + n](I_, None, list(a), None)

    def messages(I_, p, extra, kind):
        """what every message list has in common; extra(message, index, its time) states the rest"""
        s, truth = h.v
        j = var("j!", "I")
        r = s.f["m_rate"]
        times(p, p.retv.n, lambda k: p.retv.at(k).f["time"], r, truth)
        inj = [le(I(0), j), lt(j, p.retv.n)]
        if p.retv.n is I(0):
            return
        m = p.retv.at(j)
        p.prove("the sensor's identifier", eq(m.f["sensor_id"], s.f["m_id"]), inj)
        p.prove("the kind of sensor", eq(m.f["sensor_type"], I(kind)), inj)
        extra(m, inj, div(toreal(j), r), s)

    def same(p, what, a, b, cond):
        for k in range(3):
            p.prove(f"{what} {k}", eq(elem(a, k, 0), elem(b, k, 0)), cond)

    def squares(p, what, m, e, cond):
        for i in range(3):
            for k in range(3):
                p.prove(f"{what} ({i},{k})", eq(elem(m, i, k), mul(elem(e, i, 0), elem(e, i, 0)) if i == k else R(0)), cond)

    def post_imu(I_, p):
        def extra(m, c, t, s):
            g = lambda n, *a: truth_at(I_, n, *a)
            w, al, arm = g("GetBodyAngularRate", t), g("GetBodyAngularAcceleration", t), g("GetImuPosition", s.f["m_id"])
            qb, qi = g("GetBodyAngularPosition", t), g("GetImuAngularPosition", s.f["m_id"])
            acc = madd(g("GetBodyAcceleration", t), vec(R(0), R(0), R("9.80665")))
            a = madd(madd(mmul(mtr(qmat(qb)), acc), lib.cross(al, arm)), lib.cross(w, lib.cross(w, arm)))
            same(p, "specific force at the sensor, in its axes", m.f["acceleration"], mmul(mtr(qmat(qi)), a), c)
            same(p, "angular rate in the sensor's axes", m.f["angular_rate"], mmul(mtr(qmat(qi)), w), c)
            squares(p, "acceleration covariance", m.f["acceleration_covariance"], s.f["m_acc_error"], c)
            squares(p, "angular rate covariance", m.f["angular_rate_covariance"], s.f["m_omg_error"], c)
        messages(I_, p, extra, SENSOR["IMU"])
    ctx.check("SimIMU::GenerateMessages", setup_m("SimIMU"), post_imu, contracts=TRUTH)

    def post_gps(I_, p):
        def extra(m, c, t, s):
            g = lambda n, *a: truth_at(I_, n, *a)
            ant = madd(g("GetBodyPosition", t), mmul(qmat(g("GetBodyAngularPosition", t)), g("GetGpsPosition", s.f["m_id"])))
            enu = GEO["local_to_enu"](I_, None, [ant, var("GetLocalHeading", "R")], None)
            same(p, "fix: the true antenna position in geodetic coordinates", m.f["gps_lla"], GEO["enu_to_lla"](I_, None, [enu, g("GetLocalPosition")], None), c)
            squares(p, "position covariance", m.f["pos_covariance"], s.f["m_lla_error"], c)
        messages(I_, p, extra, SENSOR["GPS"])
    GEO = {n: c_abs(n) for n in ("local_to_enu", "enu_to_lla")}
    ctx.check("SimGPS::GenerateMessages", setup_m("SimGPS"), post_gps, contracts=dict(TRUTH, **GEO))

    # fiducial detections
    def setup_f(I_):
        lv, a = sensor("SimFiducialTracker")(I_)
        s, truth = h.v
        I_.assume(s.f["m_no_errors"])
        t, fr = var("t", "R"), I_.sym("unsigned int", "frame")
        h.args = (t, fr)
        return lv, [t, fr]

    def post_f(I_, p):
        s, truth = h.v
        t, fr = h.args
        g = lambda n, *a: truth_at(I_, n, *a)
        m = p.load(p.retv.lv) if isinstance(p.retv, Ptr) else p.retv
        d = m.f["board_detection"]
        p.prove("time", eq(m.f["time"], t))
        p.prove("the tracker's identifier", eq(m.f["tracker_id"], s.f["m_id"]))
        p.prove("the kind of sensor", eq(m.f["sensor_type"], I(SENSOR["Tracker"])))
        p.prove("the camera's identifier", eq(m.f["sensor_id"], s.f["m_camera_id"]))
        c = [m.f["is_board_visible"]]
        p.prove("frame", eq(d.f["frame_id"], fr), c)
        qb, qc, qf = g("GetBodyAngularPosition", t), g("GetCameraAngularPosition", s.f["m_camera_id"]), g("GetBoardOrientation", s.f["m_id"])
        x = msub(mmul(mtr(qmat(qb)), msub(g("GetBoardPosition", s.f["m_id"]), g("GetBodyPosition", t))), g("GetCameraPosition", s.f["m_camera_id"]))
        same(p, "position of the marker in the camera", d.f["pos_f_in_c"], mmul(mtr(qmat(qc)), x), c)
        q = qmul(qmul(qconj(qc), qconj(qb)), qf)
        for n in "wxyz":
            p.prove("orientation of the marker in the camera " + n, eq(getattr(d.f["ang_f_to_c"], n), getattr(q, n)), c)
        same(p, "reported position error", d.f["pos_error"], s.f["m_t_vec_error"], c)
        same(p, "reported orientation error", d.f["ang_error"], s.f["m_r_vec_error"], c)
    ctx.check("SimFiducialTracker::GenerateMessage", setup_f, post_f, contracts=TRUTH)

    # visible features
    def setup_v(I_):
        lv, a = sensor("SimFeatureTracker")(I_)
        s, truth = h.v
        fp, pp = I_.sym("std::vector<cv::Point3_<double>>", "points"), I_.sym("std::vector<cv::Point_<double>>", "proj")
        M, pos, K = mvar_dense("rot", 3, 3), v3(I_, "pos"), I_.sym("Intrinsics", "K")
        I_.assume(eq(fp.n, pp.n))
        h.args = (fp, pp, M, pos, K)
        return lv, [I_.alloc(x) for x in h.args]

    def post_v(I_, p):
        import loops
        s, truth = h.v
        fp, pp, M, pos, K = h.args
        def vis(i):
            a, b = fp.at(i), pp.at(i)
            d = radd(*[mul(elem(M, k, 2), sub(a.f[c], elem(pos, k, 0))) for k, c in enumerate("xyz")])
            return and_(lt(R(0), d), le(R(0), b.f["x"]), le(R(0), b.f["y"]), le(b.f["x"], toreal(K.f["width"])), le(b.f["y"], toreal(K.f["height"])))
        q = var("q!", "I")
        n = p.retv.n
        for t in [t for t in subterms(n) if isinstance(t, E) and t.op == "psum"] if isinstance(n, E) else []:
            I_.P.sum_lemma("visible features are the ones selected", t.args[1], t.args[2], lambda x: loops.psum(x, q, ite(vis(q), I(1), I(0))),
                           list(p.pc), upto=fp.n)
        p.prove("one key point per visible feature", eq(n, loops.psum(fp.n, q, ite(vis(q), I(1), I(0)))))
        if n is I(0):
            return
        j, l = var("j!", "I"), var("l!", "I")
        o, o2 = p.retv.at(j), p.retv.at(l)
        i = o.f["class_id"]
        c = [le(I(0), j), lt(j, n)]
        p.prove("a key point carries the number of a feature", and_(le(I(0), i), lt(i, fp.n)), c)
        p.prove("whose position is in front of the camera and in the image", vis(i), c)
        ne = s.f["m_no_errors"]
        for a in "xy":
            p.prove("its image position " + a, eq(o.f["pt"].f[a], pp.at(i).f[a]), c + [ne])
            p.prove("its image position, to the pixel, with errors " + a, le(abs_(sub(o.f["pt"].f[a], pp.at(i).f[a])), R("0.5")), c + [not_(ne)])
        p.prove("no feature appears twice", lt(i, o2.f["class_id"]), c + [lt(j, l), lt(l, n)])
    ctx.check("SimFeatureTracker::FilterInvisiblePoints", setup_v, post_v, contracts=TRUTH)


def mvar_dense(n, r, c): return mdense([[var(f"{n}.{i}_{k}", "R") for k in range(c)] for i in range(r)])


def c_abs(tag):
    """an arbitrary vector function of the scalars and vectors given"""
    def c(I_, this, args, f):
        a = []
        for x in args:
            x = lib.val(I_, x)
            a += [x] if isinstance(x, E) else [elem(x, k, 0) for k in range(3)]
        return vec(*[app(f"{tag}.{k}", a, "R") for k in range(3)])
    return c
