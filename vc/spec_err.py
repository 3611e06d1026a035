"""Simulated errors: the generator, and which draws make up each simulated measurement."""
from common import *
from spec import *
import lib
from spec_gps import Box, v3
from spec_sim import TRUTH, SENSOR, c_abs, mvar_dense
from spec_sens import REG, SETTRUTH, params_sim, events, same
import spec_ekf as SE
from prove import GiveUp
CON = dict(REG, **SE.LOGC)

GEN = "SimRNG::m_generator"
ENGINE = "std::mersenne_twister_engine<unsigned long, 64>"


def gen(I_):
    """the generator before the call"""
    lv = I_.static_loc(GEN, ENGINE)
    g = I_.load(lv)
    I_.assume(le(I(0), g.f["count"]))
    return lv, g


def draws(e, kind):
    return [t for t in subterms(e) if isinstance(t, E) and t.op == "app" and t.args[0] == "draw." + kind] if isinstance(e, E) else []


class Draws:
    """the draws a result is made of: one for each erroneous quantity, never shared, all new"""

    def __init__(self, I_, p, g0):
        self.I, self.p, self.g0, self.all = I_, p, g0, []
        self.g1 = I_.load(I_.globals[GEN])
        p.prove("the generator keeps its sequence", eq(self.g1.f["seed"], g0.f["seed"]))

    def under(self, value, cond=()):
        """the value where pc and cond hold"""
        return self.I.P.simplify(value, list(self.p.pc) + list(cond)) if isinstance(value, E) else value

    def one(self, what, value, mean, dev, cond=(), near=None):
        """value = mean + dev * (one normal draw); with near: where near(draw) holds"""
        value = self.under(value, cond)
        zs = draws(value, "normal")
        if near:                                        # other places of the code may hold the draw: a cut value only shows in the condition
            zs += [z for c in self.p.pc for z in draws(c, "normal") if z not in zs]
        if not zs:
            self.p.P.record(f"{what}: made of a draw", False, "structure", time.time())
            return None

        def goal(z): return eq(value, add(mean, mul(dev, z))), list(cond) + (near(z) if near else [])
        used = [k for _, k in self.all]
        z = zs[0]
        for x in zs if len(zs) > 1 else []:
            g, c = goal(x)
            u = self.I.P.unknowns
            try:
                if x.args[2] not in used and self.I.P.real_eq(g.args[0], g.args[1], list(self.p.pc) + c):
                    z = x
                    break
            except GiveUp:
                pass
            self.I.P.unknowns = u
        g, c = goal(z)
        self.p.prove(f"{what}: its mean plus its deviation times a draw", g, c)
        self.p.prove(f"{what}: the draw is of the generator's sequence", eq(z.args[1], self.g0.f["seed"]), cond)
        self.all.append((what, z.args[2]))
        return z

    def vec(self, what, value, mean, dev, cond=()):
        for k in range(3):
            self.one(f"{what} {k}", elem(value, k, 0), elem(mean, k, 0), elem(dev, k, 0), cond)

    def place(self, what, k, n=1):
        for i in range(n):
            self.all.append((f"{what} {i}", add(k, I(i))))

    def quat(self, what, value, mean, dev, cond=()):
        """value is an orientation drawn about the mean (contract of QuatNormRand)"""
        value = Quat(*[self.under(c, cond) for c in value.comps()]) if isinstance(value, Quat) else value
        ok = isinstance(value, Quat) and all(c.op == "app" and c.args[0] == "quatdraw." + n for c, n in zip(value.comps(), "wxyz"))
        self.p.P.record(f"{what}: an orientation drawn about its mean", ok, "structure", time.time())
        if not ok:
            return
        a = value.w.args[1:]
        for n, x, y in zip("wxyz", a[:4], mean.comps()):
            self.p.prove(f"{what}: drawn about its mean {n}", eq(x, y), cond)
        for k in range(3):
            self.p.prove(f"{what}: with its deviation {k}", eq(a[4 + k], elem(dev, k, 0)), cond)
        self.p.prove(f"{what}: the draws are of the generator's sequence", eq(a[7], self.g0.f["seed"]), cond)
        self.place(what, a[8], 3)

    def distinct(self, cond=(), other=None, ocond=()):
        """all draws are new and differ from one another; with other = (variable, another value): also between two messages"""
        c = list(cond)
        for (w, x) in self.all:
            self.p.prove(f"{w}: a new draw", and_(le(self.g0.f["count"], x), lt(x, self.g1.f["count"])), c)
        n = len(self.all)
        for i in range(n):
            if i + 1 < n:
                self.p.prove(f"{self.all[i][0]}: its draw is not used for another quantity", and_(*[not_(eq(self.all[i][1], self.all[k][1])) for k in range(i + 1, n)]), c)
        if other:
            v, l = other
            for (w, x) in self.all:
                self.p.prove(f"{w}: its draw is not used in another measurement", and_(*[not_(eq(x, subst(y, {v: l}))) for (_, y) in self.all]), c + list(ocond))


def c_quatdraw(I_, this, args, f):
    """QuatNormRand: three new draws about the mean"""
    m, d = lib.val(I_, args[0]), lib.val(I_, args[1])
    lv = I_.static_loc(GEN, ENGINE)
    g = I_.load(lv)
    a = tuple(m.comps()) + tuple(elem(d, k, 0) for k in range(3)) + (g.f["seed"], g.f["count"])
    I_.put(lv, g.set("count", add(g.f["count"], I(3))))
    q = Quat(*[app("quatdraw." + n, a, "R") for n in "wxyz"])
    I_.unit_quat(q)
    return q


def P27(ctx):
    h = Box()
    # ---------------- the generator
    def scal(a, b):
        def s(I_):
            h.gl, h.g = gen(I_)
            h.a = (var(a, "R"), var(b, "R"))
            return None, list(h.a)
        return s

    def post_n(I_, p):
        d = Draws(I_, p, h.g)
        d.one("normal number", p.retv, h.a[0], h.a[1])
        d.distinct()
    ctx.check("SimRNG::NormRand", scal("mean", "dev"), post_n)

    def post_u(I_, p):
        d = Draws(I_, p, h.g)
        zs = draws(p.retv, "uniform")
        p.P.record("uniform number: made of exactly one draw", len(zs) == 1, "structure", time.time())
        lo, hi = h.a
        p.prove("uniform number: within its bounds", and_(le(lo, p.retv), lt(p.retv, hi)), [lt(lo, hi)])
        if len(zs) == 1:
            p.prove("uniform number: spread evenly over its bounds", eq(p.retv, add(lo, mul(sub(hi, lo), zs[0]))))
            d.place("uniform number", zs[0].args[2])
        d.distinct()
    ctx.check("SimRNG::UniRand", scal("min", "max"), post_u)

    def setup_v(I_):
        h.gl, h.g = gen(I_)
        h.a = (v3(I_, "mean"), v3(I_, "dev"))
        return None, [I_.alloc(x) for x in h.a]

    def post_v(I_, p):
        d = Draws(I_, p, h.g)
        d.vec("normal vector", p.retv, *h.a)
        d.distinct()
    ctx.check("SimRNG::VecNormRand", setup_v, post_v)

    def setup_q(I_):
        h.gl, h.g = gen(I_)
        h.a = (I_.sym("Eigen::Quaternion<double, 0>", "mean"), v3(I_, "dev"))
        return None, [I_.alloc(x) for x in h.a]

    def post_q(I_, p):
        d = Draws(I_, p, h.g)
        mean, dev = h.a
        rs = [t for t in subterms(p.retv.w) if isinstance(t, E) and t.op == "app" and t.args[0] == "rv2q_w"]
        p.P.record("one random rotation", len(rs) == 1, "structure", time.time())
        if len(rs) != 1:
            return
        r = rs[0].args[1:]
        for k in range(3):
            d.one(f"rotation angle below a right angle {k}", r[k], R(0), elem(dev, k, 0), near=lambda z: [lt(mul(elem(dev, k, 0), z), R("1.57"))])
        p.prove_eq("the mean turned by the random rotation", p.retv, qmul(rotvec_quat(I_, vec(*r)), mean))
        d.distinct()
    ctx.check("SimRNG::QuatNormRand", setup_q, post_q, contracts=ROT)

    def setup_seed(I_):
        h.gl, h.g = gen(I_)
        h.s = I_.sym("unsigned int", "seed")
        return None, [h.s]

    def post_seed(I_, p):
        g = I_.load(h.gl)
        p.prove("the sequence is the one of the seed", eq(g.f["seed"], h.s))
        p.prove("from its start", eq(g.f["count"], I(0)))
    ctx.check("SimRNG::SetSeed", setup_seed, post_seed)

    # ---------------- measurement times
    def sensor(I_, cls):
        h.gl, h.g = gen(I_)
        s = I_.sym(cls, "s")
        truth = I_.alloc(I_.sym("TruthEngine", "truth"))
        s = s.set("m_truth", Ptr(truth)) if "m_truth" in s.f else s
        I_.assume(not_(s.f["m_no_errors"]))
        h.v = (s, truth)
        return I_.alloc(s)

    def setup_t(I_):
        lv = sensor(I_, "SimSensor")
        h.rate = var("rate", "R")
        I_.assume(lt(R(0), h.rate))
        I_.assume(lt(R(0), I_.load(h.v[1]).f["m_max_time"]))
        return lv, [h.rate]

    def post_t(I_, p):
        s, truth = h.v
        T = p.load(truth).f["m_max_time"]
        n = p.retv.n
        p.prove("as many as fit into the duration", eq(n, floori(mul(T, h.rate))))
        if I_.P.entails(list(p.pc), le(n, I(0))):
            return
        d = Draws(I_, p, h.g)
        j, l = var("j!", "I"), var("l!", "I")
        c = [le(I(0), j), lt(j, n)]
        t = d.under(p.retv.at(j), c)
        us = draws(t, "uniform")
        p.P.record("one random start of the sequence", len(us) == 1, "structure", time.time())
        if len(us) != 1:
            return
        p.prove("the start is the same for all measurements", eq(us[0].args[2], subst(us[0].args[2], {j: l})))
        d.one("measurement time", t, div(add(toreal(j), us[0]), h.rate), s.f["m_time_error"], c)
        d.distinct(c, (j, l), [lt(j, l), lt(l, n)])
        if d.all:
            p.prove("the start has a draw of its own", and_(le(h.g.f["count"], us[0].args[2]), lt(us[0].args[2], d.g1.f["count"])))
    ctx.check("SimSensor::GenerateMeasurementTimes", setup_t, post_t)

    # ---------------- measurements
    def c_times(I_, this, args, f):
        """GenerateMeasurementTimes: any times; the draws they take are no longer new"""
        lv = I_.static_loc(GEN, ENGINE)
        g = I_.load(lv)
        c = var("drawn", "I")
        n = var("ntimes", "I")
        I_.assume(le(g.f["count"], c))
        I_.assume(le(I(0), n))
        I_.put(lv, g.set("count", c))
        h.n = n
        return Seq(n, lambda k: app("time_of", (k,), "R"), "times", "double")
    MSG = dict(TRUTH, **{"SimSensor::GenerateMeasurementTimes": c_times, "SimRNG::QuatNormRand": c_quatdraw})

    def truth_at(I_, n, *a): return TRUTH["TruthEngine::" + n](I_, None, list(a), None)

    def messages(extra):
        def post(I_, p):
            n = p.retv.n
            p.prove("one measurement per time", eq(n, h.n))
            if I_.P.entails(list(p.pc), le(n, I(0))):
                return
            d = Draws(I_, p, Obj("g", {"seed": h.g.f["seed"], "count": var("drawn", "I")}))
            j, l = var("j!", "I"), var("l!", "I")
            c = [le(I(0), j), lt(j, n)]
            m = p.retv.at(j)
            t = app("time_of", (j,), "R")
            p.prove("the measurement's time", eq(m.f["time"], t), c)
            extra(I_, p, d, m, t, h.v[0], c)
            d.distinct(c, (j, l), [lt(j, l), lt(l, n)])
        return post

    def squares(p, what, m, e, cond):
        for i in range(3):
            for k in range(3):
                p.prove(f"{what} ({i},{k})", eq(elem(m, i, k), mul(elem(e, i, 0), elem(e, i, 0)) if i == k else R(0)), cond)

    def x_imu(I_, p, d, m, t, s, c):
        g = lambda n, *a: truth_at(I_, n, *a)
        w, al, arm = g("GetBodyAngularRate", t), g("GetBodyAngularAcceleration", t), g("GetImuPosition", s.f["m_id"])
        qb, qi = g("GetBodyAngularPosition", t), g("GetImuAngularPosition", s.f["m_id"])
        acc = madd(g("GetBodyAcceleration", t), vec(R(0), R(0), R("9.80665")))
        a = madd(madd(mmul(mtr(qmat(qb)), acc), lib.cross(al, arm)), lib.cross(w, lib.cross(w, arm)))
        d.vec("specific force: truth, bias and noise", m.f["acceleration"], madd(mmul(mtr(qmat(qi)), a), g("GetImuAccelerometerBias", s.f["m_id"])), s.f["m_acc_error"], c)
        d.vec("angular rate: truth, bias and noise", m.f["angular_rate"], madd(mmul(mtr(qmat(qi)), w), g("GetImuGyroscopeBias", s.f["m_id"])), s.f["m_omg_error"], c)
        squares(p, "acceleration covariance is the noise's", m.f["acceleration_covariance"], s.f["m_acc_error"], c)
        squares(p, "angular rate covariance is the noise's", m.f["angular_rate_covariance"], s.f["m_omg_error"], c)

    def setup_m(cls):
        return lambda I_: (sensor(I_, cls), [])
    ctx.check("SimIMU::GenerateMessages", setup_m("SimIMU"), messages(x_imu), contracts=MSG)

    GEO = {n: c_abs(n) for n in ("local_to_enu", "enu_to_lla")}

    def x_gps(I_, p, d, m, t, s, c):
        g = lambda n, *a: truth_at(I_, n, *a)
        ant = madd(g("GetBodyPosition", t), mmul(qmat(g("GetBodyAngularPosition", t)), g("GetGpsPosition", s.f["m_id"])))
        x = d.under(elem(m.f["gps_lla"], 0, 0), c)
        e = x.args[1] if x.op == "app" and x.args[0] == "enu_to_lla.0" else None
        ok = e is not None and e.op == "app" and e.args[0] == "local_to_enu.0"
        p.P.record("fix: a local position turned into geodetic coordinates", ok, "structure", time.time())
        if not ok:
            return
        pos = vec(*e.args[1:4])
        d.vec("antenna position: truth and noise", pos, ant, s.f["m_lla_error"], c)
        enu = GEO["local_to_enu"](I_, None, [pos, var("GetLocalHeading", "R")], None)
        for k in range(3):
            p.prove(f"fix: that position in geodetic coordinates {k}", eq(elem(m.f["gps_lla"], k, 0), elem(GEO["enu_to_lla"](I_, None, [enu, g("GetLocalPosition")], None), k, 0)), c)
        squares(p, "position covariance is the noise's", m.f["pos_covariance"], s.f["m_lla_error"], c)
    ctx.check("SimGPS::GenerateMessages", setup_m("SimGPS"), messages(x_gps), contracts=dict(MSG, **GEO))

    def setup_f(I_):
        lv = sensor(I_, "SimFiducialTracker")
        h.args = (var("t", "R"), I_.sym("unsigned int", "frame"))
        return lv, list(h.args)

    def post_f(I_, p):
        s, truth = h.v
        t, fr = h.args
        g = lambda n, *a: truth_at(I_, n, *a)
        m = p.load(p.retv.lv) if isinstance(p.retv, Ptr) else p.retv
        b = m.f["board_detection"]
        c = [m.f["is_board_visible"]]
        qb, qc, qf = g("GetBodyAngularPosition", t), g("GetCameraAngularPosition", s.f["m_camera_id"]), g("GetBoardOrientation", s.f["m_id"])
        x = msub(mmul(mtr(qmat(qb)), msub(g("GetBoardPosition", s.f["m_id"]), g("GetBodyPosition", t))), g("GetCameraPosition", s.f["m_camera_id"]))
        d = Draws(I_, p, h.g)
        d.vec("position of the marker: truth and noise", b.f["pos_f_in_c"], mmul(mtr(qmat(qc)), x), s.f["m_t_vec_error"], c)
        d.quat("orientation of the marker: truth and noise", b.f["ang_f_to_c"], qmul(qmul(qconj(qc), qconj(qb)), qf), s.f["m_r_vec_error"], c)
        for f, e in (("pos_error", "m_t_vec_error"), ("ang_error", "m_r_vec_error")):
            for k in range(3):
                p.prove(f"reported {f} is the noise's {k}", eq(elem(b.f[f], k, 0), elem(s.f[e], k, 0)), c)
        d.distinct(c)
    ctx.check("SimFiducialTracker::GenerateMessage", setup_f, post_f, contracts=MSG)

    # ---------------- the true mounting and biases differ from the configured ones by draws
    SIMC = dict(CON, **SETTRUTH, **{"SimRNG::QuatNormRand": c_quatdraw})

    def setup_c(cls, inner, nvar=None):
        def s(I_):
            o, ekf = params_sim(I_, cls, inner, nvar)
            I_.assume(not_(o.f["no_errors"]))
            truth = I_.alloc(I_.sym("TruthEngine", "truth"))
            h.v = (o, truth)
            h.gl, h.g = gen(I_)
            return None, [I_.alloc(o), Ptr(truth)]
        return s

    def post_c(what, inner):
        def post(I_, p):
            o, truth = h.v
            ev = {e[1]: e[3] for e in I_.events if e[0] == "truth"}
            d = Draws(I_, p, h.g)
            for s, (f, e) in what.items():
                p.P.record(f"{s}: set", s in ev, "structure", time.time())
                if s not in ev:
                    continue
                x, y = ev[s][1], o.f[inner].f[f]
                (d.quat if isinstance(y, Quat) else d.vec)(f"true {f}", x, y, o.f[e])
            d.distinct()
            T = p.load(p.this)
            p.prove("works with errors, as configured", not_(T.f["m_no_errors"]))
            if "m_time_error" in T.f:
                p.prove("configured time error", eq(T.f["m_time_error"], o.f["time_error"]))
            for f in [x for x in o.f if x.endswith("_error") and x != "time_error" and "m_" + x in T.f]:
                same(p, "configured " + f, T.f["m_" + f], o.f[f])
        return post
    ctx.check("SimIMU::SimIMU", setup_c("SimIMU::Parameters", "imu_params", 12), post_c({"SetImuPosition": ("pos_i_in_b", "pos_error"), "SetImuAngularPosition": ("ang_i_to_b", "ang_error"),
              "SetImuAccelerometerBias": ("acc_bias", "acc_bias_error"), "SetImuGyroscopeBias": ("omg_bias", "omg_bias_error")}, "imu_params"), contracts=SIMC)
    ctx.check("SimGPS::SimGPS", setup_c("SimGPS::Parameters", "gps_params"), post_c({"SetGpsPosition": ("pos_a_in_b", "pos_a_in_b_err")}, "gps_params"), contracts=SIMC)
    ctx.check("SimCamera::SimCamera", setup_c("SimCamera::Parameters", "cam_params", 6), post_c({"SetCameraPosition": ("pos_c_in_b", "pos_error"), "SetCameraAngularPosition": ("ang_c_to_b", "ang_error")}, "cam_params"), contracts=SIMC)
    ctx.check("SimFiducialTracker::SimFiducialTracker", setup_c("SimFiducialTracker::Parameters", "fiducial_params", 6),
              post_c({"SetBoardPosition": ("pos_f_in_l", "pos_error"), "SetBoardOrientation": ("ang_f_to_l", "ang_error")}, "fiducial_params"), contracts=SIMC)
