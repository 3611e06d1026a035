"""Geodetic frames, GPS initialisation and the GPS measurement update."""
from common import *
from spec import *
import spec_ekf as SE

WGS_A, WGS_F, WGS_E = R("6378137"), R("0.00335281066474748071998"), R("0.0818191908426214947083")
INIT = {"CONSTANT": 0, "BASELINE_DIST": 1, "ERROR_THRESHOLD": 2}
PI = R("3.14159265358979323846")
DEG = div(PI, R(180))


def s_(x): return fn("sin", x)
def c_(x): return fn("cos", x)


def ecef_of(a):
    """contract of lla_to_ecef: a point that depends only on the three geodetic coordinates"""
    return vec(*[app(f"lla2ecef_{k}", a, "R") for k in range(3)])


def hook_ecef(I_):
    def hk(c):
        def h(env, la, lo, al):
            if not (-90 <= la <= 90 and -180 <= lo <= 180):
                return 0.0
            f = 3.35281066474748071998e-3
            e2 = (2 - f) * f
            s, k = math.sin(math.radians(la)), math.cos(math.radians(la))
            N = 6378137.0 / math.sqrt(1 - e2 * s * s)
            return [(N + al) * k * math.cos(math.radians(lo)), (N + al) * k * math.sin(math.radians(lo)), (N * (1 - e2) + al) * s][c]
        return h
    for c in range(3):
        I_.P.hooks[f"lla2ecef_{c}"] = hk(c)


def c_ecef(I_, this, args, f):
    hook_ecef(I_)
    v = lib.val(I_, args[0])
    return ecef_of([elem(v, k, 0) for k in range(3)])


def rot_enu(lat, lon):
    sa, ca, so, co = s_(lat), c_(lat), s_(lon), c_(lon)
    return [[neg(so), co, R(0)], [neg(mul(co, sa)), neg(mul(so, sa)), ca], [mul(co, ca), mul(so, ca), sa]]


def v3(I_, name): return vec(*[var(f"{name}{k}", "R") for k in range(3)])
def comps(v): return [elem(v, k, 0) for k in range(3)]
def radd(*a):
    out = a[0]
    for x in a[1:]:
        out = add(out, x)
    return out
def mv(Rm, x): return [radd(*[mul(Rm[i][k], x[k]) for k in range(3)]) for i in range(3)]
def tr(Rm): return [[Rm[j][i] for j in range(3)] for i in range(3)]


def P13(ctx):
    # geodetic to ECEF
    def setup(I_):
        v = v3(I_, "lla")
        setup.v = v
        return None, [I_.alloc(v)]
    def post(I_, p):
        la, lo, al = comps(setup.v)
        inr = and_(le(R(-90), la), le(la, R(90)), le(R(-180), lo), le(lo, R(180)))
        e2 = mul(sub(R(2), WGS_F), WGS_F)
        sl, cl = s_(mul(la, DEG)), c_(mul(la, DEG))
        N = div(WGS_A, fn("sqrt", sub(R(1), mul(e2, mul(sl, sl)))))
        ex = [mul(mul(add(N, al), cl), c_(mul(lo, DEG))), mul(mul(add(N, al), cl), s_(mul(lo, DEG))), mul(add(mul(N, sub(R(1), e2)), al), sl)]
        for k in range(3):
            p.prove(f"coordinate {k} is that of the WGS84 ellipsoid (origin when out of range)", eq(elem(p.retv, k, 0), ite(inr, ex[k], R(0))))
    ctx.check("lla_to_ecef", setup, post)

    C = {"lla_to_ecef": c_ecef}
    def setup2(I_):
        x, r = v3(I_, "x"), v3(I_, "ref")
        setup2.v = (x, r)
        return None, [I_.alloc(x), I_.alloc(r)]
    def to_enu(point):
        def post2(I_, p):
            x, r = setup2.v
            la, lo, _ = comps(r)
            M = rot_enu(mul(la, DEG), mul(lo, DEG))
            c = comps(ecef_of(comps(r)))
            d = [sub(a, b) for a, b in zip(comps(point(x)), c)]
            ex = mv(M, d)
            got = comps(p.retv)
            for k in range(3):
                p.prove(f"component {k}: rotated difference to the reference point", eq(got[k], ex[k]))
            back = mv(tr(M), got)
            for k in range(3):
                p.prove(f"component {k}: the rotation is orthonormal, so the point comes back", eq(back[k], d[k]))
        return post2
    ctx.check("ecef_to_enu", setup2, to_enu(lambda x: x), contracts=C)
    ctx.check("lla_to_enu", setup2, to_enu(lambda x: ecef_of(comps(x))), contracts=C)
    def post3(I_, p):
        x, r = setup2.v
        la, lo, _ = comps(r)
        M = rot_enu(mul(la, DEG), mul(lo, DEG))
        c = comps(ecef_of(comps(r)))
        got = comps(p.retv)
        ex = mv(tr(M), comps(x))
        for k in range(3):
            p.prove(f"component {k}: reference point plus rotated offset", eq(got[k], add(c[k], ex[k])))
        back = mv(M, [sub(a, b) for a, b in zip(got, c)])
        for k in range(3):
            p.prove(f"component {k}: converting back gives the offset", eq(back[k], elem(x, k, 0)))
    ctx.check("enu_to_ecef", setup2, post3, contracts=C)
    # enu_to_lla = ecef_to_lla(enu_to_ecef)
    def c_e2e(I_, this, args, f):
        a = comps(lib.val(I_, args[0])) + comps(lib.val(I_, args[1]))
        return vec(*[app(f"enu2ecef_{k}", a, "R") for k in range(3)])
    def c_e2l(I_, this, args, f):
        a = comps(lib.val(I_, args[0]))
        return vec(*[app(f"ecef2lla_{k}", a, "R") for k in range(3)])
    def post4(I_, p):
        x, r = setup2.v
        a = [app(f"enu2ecef_{k}", comps(x) + comps(r), "R") for k in range(3)]
        for k in range(3):
            p.prove(f"component {k}: geodetic coordinates of the converted point", eq(elem(p.retv, k, 0), app(f"ecef2lla_{k}", a, "R")))
    ctx.check("enu_to_lla", setup2, post4, contracts={"enu_to_ecef": c_e2e, "ecef_to_lla": c_e2l})
    # ECEF to geodetic: only the longitude has a closed form worth stating
    def post5(I_, p):
        x, y, z = comps(setup.v)
        p.prove("longitude is the angle of the equatorial projection", eq(mul(elem(p.retv, 1, 0), DEG), fn("atan2", y, x)))
    ctx.check("ecef_to_lla", setup, post5)
    # heading
    for name, sg in (("local_to_enu", 1), ("enu_to_local", -1)):
        def setup6(I_):
            x, a = v3(I_, "x"), var("ang", "R")
            setup6.v = (x, a)
            return None, [I_.alloc(x), a]
        def post6(I_, p, sg=sg):
            x, a = setup6.v
            x0, x1, x2 = comps(x)
            S = mul(R(sg), s_(a))
            got = comps(p.retv)
            p.prove("first axis", eq(got[0], add(mul(c_(a), x0), mul(S, x1))))
            p.prove("second axis", eq(got[1], sub(mul(c_(a), x1), mul(S, x0))))
            p.prove("the vertical axis is kept", eq(got[2], x2))
            p.prove("converting back: first axis", eq(sub(mul(c_(a), got[0]), mul(S, got[1])), x0))
            p.prove("converting back: second axis", eq(add(mul(S, got[0]), mul(c_(a), got[1])), x1))
        ctx.check(name, setup6, post6)
    def setup7(I_):
        m = var("m", "R")
        setup7.v = m
        return None, [m]
    def post7(I_, p):
        p.prove("metres along a great circle of the equatorial radius", eq(mul(p.retv, mul(WGS_A, DEG)), setup7.v))
    ctx.check("wgs84_m_to_deg", setup7, post7)


# ------------------------------------------------------------------ initialisation of the GPS reference
def c_avg(I_, this, args, f):
    s = I_.load(args[0])
    I_.events.append(("avg", s))
    return vec(*[var(f"avg{k}", "R") for k in range(3)])


def fvec(name, xs): return vec(*[app(f"{name}_{k}", list(xs), "R") for k in range(3)])


def c_fn3(name):
    def c(I_, this, args, f):
        xs = []
        for a in args:
            xs += comps(lib.val(I_, a))
        return fvec(name, xs)
    return c


def c_kabsch(I_, this, args, f):
    """fits a planar rigid motion; all outputs unknown"""
    t, s = I_.load(args[0]), I_.load(args[1])
    T = I_.sym("Eigen::Transform<double, 3, 2>", "fit")
    I_.put(args[2], T)
    I_.put(args[3], var("fit.pos", "R"))
    I_.put(args[4], var("fit.ang", "R"))
    I_.events.append(("kabsch", t, s, T))
    return var("fit.ok", "B")


def c_maxd(I_, this, args, f):
    I_.events.append(("maxdist", I_.load(args[0])))
    return var("maxdist", "R")


def same_seq(p, what, a, b, m, k):
    p.prove(what + ": length", eq(a.n, b))
    p.prove_eq(what + ": entries", a.at(k), m(k), [le(I(0), k), lt(k, b)])


def P14(ctx):
    C = {**SE.LOGC, "average_vectors": c_avg, "lla_to_ecef": c_fn3("l2e"), "ecef_to_lla": c_fn3("e2l"), "ecef_to_enu": c_fn3("e2n"),
         "enu_to_lla": c_fn3("n2l"), "kabsch_2d": c_kabsch, "maximum_distance": c_maxd,
         "affine_angle": lambda I_, this, args, f: var("fit.angle", "R")}
    def setup(I_):
        e = SE.inv_ekf(I_, None)
        n = var("samples", "I")
        I_.assume(le(I(0), n))
        for f in ("m_gps_time_vec", "m_gps_ecef_vec", "m_gps_xyz_vec"):
            s = e.f[f]
            e = e.set(f, Seq(n, s.at, s.tag, s.ety))
        lv = I_.alloc(e)
        t, g = var("t", "R"), v3(I_, "lla")
        setup.v = (e, lv, n, t, g)
        return lv, [t, I_.alloc(g)]
    def post(I_, p):
        e, lv, n, t, g = setup.v
        T = p.load(lv)
        k = var("k!", "I")
        n1 = add(n, I(1))
        def app1(f, x):
            return lambda q: merge(lt(q, n), e.f[f].at(q), x)
        ecef = fvec("l2e", comps(g))
        same_seq(p, "the sample's time is appended", T.f["m_gps_time_vec"], n1, app1("m_gps_time_vec", t), k)
        same_seq(p, "the sample's position is appended", T.f["m_gps_ecef_vec"], n1, app1("m_gps_ecef_vec", ecef), k)
        same_seq(p, "the body position is appended", T.f["m_gps_xyz_vec"], n1, app1("m_gps_xyz_vec", e.f["m_state"].f["body_state"].f["pos_b_in_l"]), k)
        kb = [x for x in I_.events if x[0] == "kabsch"]
        av = [x for x in I_.events if x[0] == "avg"]
        ref = fvec("e2l", [var(f"avg{c}", "R") for c in range(3)])
        enu = lambda q: fvec("e2n", comps(app1("m_gps_ecef_vec", ecef)(q)) + comps(ref))
        few = lt(n1, I(4))
        ty = e.f["m_gps_init_type"]
        latch = and_(not_(few), or_(and_(eq(ty, I(INIT["BASELINE_DIST"])), lt(e.f["m_gps_init_baseline_dist"], var("maxdist", "R"))),
                                    and_(eq(ty, I(INIT["ERROR_THRESHOLD"])), var("fit.ok", "B"), lt(var("fit.pos", "R"), e.f["m_gps_init_pos_thresh"]),
                                         not_(eq(var("fit.ang", "R"), R(0))), lt(var("fit.ang", "R"), fn("tan", e.f["m_gps_init_ang_thresh"])))))
        if kb:
            p.prove("fitted only with at least four samples", not_(few))
            same_seq(p, "target of the fit: body positions", kb[0][1], n1, app1("m_gps_xyz_vec", e.f["m_state"].f["body_state"].f["pos_b_in_l"]), k)
            same_seq(p, "source of the fit: samples in the frame of their mean", kb[0][2], n1, enu, k)
        else:
            p.prove("with four samples a fit is made", few)
        for x in av[:1]:
            same_seq(p, "the mean is that of all samples", x[1], n1, app1("m_gps_ecef_vec", ecef), k)
        for x in [x for x in I_.events if x[0] == "maxdist"]:
            same_seq(p, "the baseline is that of all samples", x[1], n1, enu, k)
        p.prove("the reference is initialised exactly when it was, or the condition of its mode holds", eq(T.f["m_is_lla_initialized"], or_(e.f["m_is_lla_initialized"], latch)))
        F = p.I.sym("Eigen::Transform<double, 3, 2>", "fit")
        off = mmul(mtr(F.lin), F.tr)
        pos = fvec("n2l", [neg(x) for x in comps(off)] + comps(ref))
        new, old = T.f["m_pos_e_in_g"], e.f["m_pos_e_in_g"]
        for c in range(3):
            p.prove(f"reference position {c}: local origin of the fit, otherwise kept", eq(elem(new, c, 0), ite(latch, elem(pos, c, 0), elem(old, c, 0))))
        p.prove("reference heading: angle of the fit, otherwise kept", eq(T.f["m_ang_l_to_e"], ite(latch, var("fit.angle", "R"), e.f["m_ang_l_to_e"])))
        SE.prove_same(p, "kept: ", T, e, but=("m_gps_time_vec", "m_gps_ecef_vec", "m_gps_xyz_vec", "m_is_lla_initialized", "m_pos_e_in_g", "m_ang_l_to_e"))
    ctx.check("EKF::AttemptGpsInitialization", setup, post, contracts=C)


def rsum(n, f):
    import loops
    t = var("tL", "I")
    return loops.psum(n, t, f(t))


def mean_of(s, w=None):
    if w is None:
        den = toreal(s.n)
        return [div(rsum(s.n, lambda t: elem(s.at(t), c, 0)), den) for c in range(3)]
    den = rsum(s.n, lambda t: w.at(t))
    return [div(rsum(s.n, lambda t: mul(w.at(t), elem(s.at(t), c, 0))), den) for c in range(3)]


def P14h(ctx):
    VV = "std::vector<Eigen::Matrix<double, 3, 1>>"
    def seqv(I_, name):
        s = I_.sym(VV, name)
        I_.assume(lt(I(0), s.n))
        return s
    def setup(I_):
        s = seqv(I_, "v")
        w = I_.sym("std::vector<double>", "w")
        setup.v = (s, w)
        I_.assume(eq(w.n, s.n))
        return None, [I_.alloc(s), I_.alloc(w)]
    def setup1(I_):
        s = seqv(I_, "v")
        setup1.v = s
        return None, [I_.alloc(s)]
    def post(I_, p):
        s, w = setup.v
        for c, m in enumerate(mean_of(s, w)):
            p.prove(f"weighted mean, coordinate {c}", eq(elem(p.retv, c, 0), m))
    ctx.check("average_vectors", setup, post, nparams=2, label="average_vectors (weighted)")
    def post1(I_, p):
        for c, m in enumerate(mean_of(setup1.v)):
            p.prove(f"mean, coordinate {c}", eq(elem(p.retv, c, 0), m))
    ctx.check("average_vectors", setup1, post1, nparams=1)
    def c_mean(I_, this, args, f):
        return vec(*mean_of(I_.load(args[0])))
    def post2(I_, p):
        s = setup1.v
        m = mean_of(s)
        sq = rsum(s.n, lambda t: radd(*[mul(sub(elem(s.at(t), c, 0), m[c]), sub(elem(s.at(t), c, 0), m[c])) for c in range(3)]))
        p.prove("root of the summed squared distances to the mean, over the number of vectors", eq(p.retv, div(fn("sqrt", sq), toreal(s.n))))
    ctx.check("mean_standard_deviation", setup1, post2, contracts={"average_vectors": c_mean})
    def setup3(I_):
        T = I_.sym("Eigen::Transform<double, 3, 2>", "T")
        setup3.v = T
        return None, [I_.alloc(T)]
    def post3(I_, p):
        T = setup3.v
        p.prove("heading of the rotated first axis", eq(p.retv, fn("atan2", elem(T.lin, 1, 0), elem(T.lin, 0, 0))))
    ctx.check("affine_angle", setup3, post3)
    def setup4(I_):
        s, v = seqv(I_, "v"), v3(I_, "x")
        setup4.v = (s, v)
        return None, [I_.alloc(s), I_.alloc(v)]
    def post4(I_, p):
        s, v = setup4.v
        k = var("k!", "I")
        p.prove("same number of vectors", eq(p.retv.n, s.n))
        p.prove_eq("each vector is shifted", p.retv.at(k), msub(s.at(k), v), [le(I(0), k), lt(k, s.n)])
    ctx.check("operator-", setup4, post4, label="operator- (vectors, vector)")
    # kabsch_2d
    def setup5(I_):
        t, s = I_.sym(VV, "tgt"), I_.sym(VV, "src")
        T = I_.alloc(I_.sym("Eigen::Transform<double, 3, 2>", "T"))
        a, b = I_.alloc(var("pos0", "R")), I_.alloc(var("ang0", "R"))
        setup5.v = (t, s, T, a, b, I_.load(T))
        return None, [I_.alloc(t), I_.alloc(s), T, a, b]
    def c_mean2(I_, this, args, f):
        s = I_.load(args[0])
        I_.events.append(("mean", s))
        return vec(*mean_of(s))
    def c_std(I_, this, args, f):
        I_.events.append(("std", I_.load(args[0])))
        return var("std", "R")
    def post5(I_, p):
        t, s, Tl, al, bl, T0 = setup5.v
        T = p.load(Tl)
        few = or_(not_(eq(t.n, s.n)), lt(t.n, I(4)))
        p.prove("refused exactly for unequal or fewer than four points", eq(p.retv, not_(few)))
        sd = [x for x in I_.events if x[0] == "std"]
        if not sd:
            p.prove("a fit is made otherwise", few)
            p.prove_eq("refused: outputs unchanged", (p.load(al), p.load(bl)), (var("pos0", "R"), var("ang0", "R"))) if False else None
            p.prove("refused: outputs unchanged (position)", eq(p.load(al), var("pos0", "R")))
            p.prove("refused: outputs unchanged (angle)", eq(p.load(bl), var("ang0", "R")))
            p.prove_mat("refused: outputs unchanged (rotation)", T.lin, T0.lin)
            p.prove_mat("refused: outputs unchanged (translation)", T.tr, T0.tr)
            return
        for r in range(3):
            for c in range(3):
                if r == 2 or c == 2:
                    p.prove(f"planar rotation: entry {r}{c}", eq(elem(T.lin, r, c), R(1 if r == c else 0)))
        mt, ms = vec(*mean_of(t)), vec(*mean_of(s))
        p.prove_mat("the mean of the source is mapped to the mean of the target", madd(mmul(T.lin, ms), T.tr), mt)
        k = var("k!", "I")
        rng = [le(I(0), k), lt(k, t.n)]
        p.prove("position error is that of all residuals: number", eq(sd[0][1].n, t.n))
        p.prove_eq("position error is that of all residuals: each", sd[0][1].at(k), msub(t.at(k), madd(mmul(T.lin, s.at(k)), T.tr)), rng)
        p.prove("position error is their deviation", eq(p.load(al), var("std", "R")))
    ctx.check("kabsch_2d", setup5, post5, contracts={"average_vectors": c_mean2, "mean_standard_deviation": c_std})


# ------------------------------------------------------------------ GPS measurement update
def c_qjac(I_, this, args, f):
    """QuaternionJacobian: a 3x3 matrix that depends only on the orientation"""
    q = lib.val(I_, args[0])
    return mdense([[app(f"qjac_{i}{j}", q.comps(), "R") for j in range(3)] for i in range(3)])


def qjac(q): return mdense([[app(f"qjac_{i}{j}", q.comps(), "R") for j in range(3)] for i in range(3)])


def skew3(v):
    x, y, z = comps(v)
    return mdense([[R(0), neg(z), y], [z, R(0), neg(x)], [neg(y), x, R(0)]])


def gps_of(e, kk): return e.f["m_state"].f["gps_states"].val(kk)


def gps_predicted(e, kk):
    b = e.f["m_state"].f["body_state"]
    return madd(b.f["pos_b_in_l"], qrot(b.f["ang_b_to_l"], gps_of(e, kk).f["pos_a_in_b"]))


def gps_jacobian(e, kk, ext):
    """expected 3 x n Jacobian as an elementwise function"""
    from spec_matrix import fmat, bi, bj
    b, g = e.f["m_state"].f["body_state"], gps_of(e, kk)
    Rm = qmat(b.f["ang_b_to_l"])
    A = mneg(mmul(mmul(Rm, skew3(g.f["pos_a_in_b"])), qjac(b.f["ang_b_to_l"])))
    idx = g.f["index"]
    def pick(M, i, j):
        d = dense(M)
        r = R(0)
        for p_ in range(3):
            for q_ in range(3):
                r = ite(and_(eq(i, I(p_)), eq(j, I(q_))), d[p_][q_], r)
        return r
    v = ite(lt(bj, I(3)), ite(eq(bi, bj), R(1), R(0)),
            ite(and_(le(I(9), bj), lt(bj, I(12))), pick(A, bi, sub(bj, I(9))),
                ite(and_(ext, le(idx, bj), lt(bj, add(idx, I(3)))), pick(Rm, bi, sub(bj, idx)), R(0))))
    return fmat(I(3), e.f["m_state_size"], v)


def gps_upd(I_, e, kk, ext=None):
    u = I_.sym("GpsUpdater", "u")
    S = e.f["m_state"]
    I_.assume(le(I(0), kk)); I_.assume(lt(kk, S.f["gps_states"].n))
    key = S.f["gps_states"].key(kk)
    u = u.set("m_id", key)
    if "m_is_extrinsic" in u.f:
        u = u.set("m_is_extrinsic", gps_of(e, kk).f["is_extrinsic"])
    return u


def gps_setup(holder, args=lambda I_: []):
    def setup(I_):
        e = SE.inv_ekf(I_, None)
        e = e.set("m_use_first_estimate_jacobian", B(False))
        kk = I_.sym("unsigned int", "kk")
        u = gps_upd(I_, e, kk)
        lv, ul = I_.alloc(e), I_.alloc(u)
        extra = args(I_)
        holder.v = (e, lv, kk, u, ul, extra)
        return ul, [lv] + extra
    return setup


def prove_upd_frame(p, ul, u, but=("m_pos_a_in_b", "m_is_first_estimate", "m_data_logger")):
    T = p.load(ul)
    for f in u.f:
        if f not in but and not isinstance(u.f[f], (Opaque, Ptr)):
            p.prove_eq("the updater keeps " + f, T.f[f], u.f[f])


class Box:
    def __init__(self, **k): self.__dict__.update(k)


def c_predict(I_, this, args, f):
    """PredictModel (contract of the prediction): a filter that satisfies its invariant, with the same sensors, at some time"""
    e = I_.load(this)
    t = lib.val(I_, args[0])
    n = sum(x[0] == "predict" for x in I_.events)
    e2 = SE.ekf(I_, None, f"pred{n}")
    S, S2 = e.f["m_state"], e2.f["m_state"]
    for m in ("imu_states", "gps_states", "cam_states", "fid_states"):
        S2 = S2.set(m, S.f[m])
    S2 = indexed_(S2)
    L = Layout(S2)
    n_ = L.size()
    out = e
    for f_ in ("m_body_process_noise",):
        pass
    out = out.set("m_state", S2).set("m_state_size", n_).set("m_cov", mvar(f"predcov{n}", n_, n_)).set("m_process_noise", mvar(f"predQ{n}", n_, n_)).set("m_current_time", e2.f["m_current_time"])
    out = out.set("m_aug_state_size", L.total("aug_states"))
    for x in Layout.ORDER:
        out = out.set(SE.STARTS[x], L.start(x))
    I_.put(this, out)
    I_.events.append(("predict", e, t, out))
    return None


def indexed_(S): return SE.indexed(S)


def c_localtime(I_, this, args, f):
    """CalculateLocalTime: time relative to the reference (contract of the clock)"""
    e = I_.load(this)
    t = lib.val(I_, args[0])
    i = e.f["m_time_initialized"]
    I_.put(this, e.set("m_reference_time", ite(i, e.f["m_reference_time"], t)).set("m_current_time", ite(i, e.f["m_current_time"], R(0))).set("m_time_initialized", TRUE))
    return ite(i, sub(t, e.f["m_reference_time"]), R(0))


def c_kalman(I_, this, args, f):
    """KalmanUpdate (contract of the measurement update): one correction; new estimate of the same shape"""
    e = I_.load(args[0])
    H, r, N = [lib.val(I_, a) for a in args[1:4]]
    n = sum(x[0] == "kalman" for x in I_.events)
    b = I_.sym("BodyState", f"upd{n}.body").set("index", I(0))
    S = e.f["m_state"]
    S = S.set("body_state", b)
    for m, cls in (("imu_states", "ImuState"), ("gps_states", "GpsState"), ("cam_states", "CamState"), ("fid_states", "FidState")):
        old = S.f[m]
        def val(k, old=old, m=m, cls=cls, n=n):
            o = old.val(k)
            x = I_.sym(cls, f"upd{n}.{m}", (k,))
            keep = [f_ for f_ in o.f if not (isinstance(o.f[f_], (Mx, Quat)) and f_ not in ("",))]
            return x.__class__(x.cls, {**x.f, **{f_: o.f[f_] for f_ in keep}})
        S = S.set(m, old.copyinfo(Map(old.n, old.key, val, old.tag, old.vty, old.default)))
    out = e.set("m_state", S).set("m_cov", mvar(f"updcov{n}", e.f["m_cov"].r, e.f["m_cov"].c))
    I_.put(args[0], out)
    I_.events.append(("kalman", e, H, r, N, out))
    return None


def P15(ctx):
    h = Box()
    QJ = {"QuaternionJacobian": c_qjac}
    def post(I_, p):
        e, lv, kk, u, ul, _ = h.v
        p.prove_mat("antenna position: body position plus rotated lever arm", p.retv, gps_predicted(e, kk))
        SE.prove_same(p, "prediction leaves the filter alone: ", p.load(lv), e)
        prove_upd_frame(p, ul, u)
    ctx.check("GpsUpdater::PredictMeasurement", gps_setup(h), post)
    def post2(I_, p):
        e, lv, kk, u, ul, _ = h.v
        J = gps_jacobian(e, kk, u.f["m_is_extrinsic"])
        p.prove_mat("Jacobian: identity at the position, -R[p]xJ at the orientation, R at the antenna, zero elsewhere", p.retv, J)
        SE.prove_same(p, "the Jacobian leaves the filter alone: ", p.load(lv), e)
        prove_upd_frame(p, ul, u)
    ctx.check("GpsUpdater::GetMeasurementJacobian", gps_setup(h), post2, contracts=QJ)

    def c_pm(I_, this, args, f):
        e, u = I_.load(args[0]), I_.load(this)
        I_.put(this, u.set("m_pos_a_in_b", I_.sym("Eigen::Matrix<double, 3, 1>", "cachedpos")))
        I_.events.append(("pm", e))
        return gps_predicted(e, h.v[2])
    def c_jac(I_, this, args, f):
        e, u = I_.load(args[0]), I_.load(this)
        I_.events.append(("jac", e))
        return gps_jacobian(e, h.v[2], u.f["m_is_extrinsic"])
    def c_attempt(I_, this, args, f):
        e = I_.load(this)
        t, g = lib.val(I_, args[0]), lib.val(I_, args[1])
        ini = fresh("latched", "B")
        n = add(e.f["m_gps_time_vec"].n, I(1))
        out = e.set("m_is_lla_initialized", or_(e.f["m_is_lla_initialized"], ini))
        I_.put(this, out)
        I_.events.append(("attempt", e, t, g, ini))
        return None
    def c_multi(I_, this, args, f):
        I_.events.append(("multi", I_.load(args[0])))
        return None
    C = {**SE.LOGC, "EKF::PredictModel": c_predict, "EKF::CalculateLocalTime": c_localtime, "Updater::KalmanUpdate": c_kalman, "GpsUpdater::PredictMeasurement": c_pm,
         "GpsUpdater::GetMeasurementJacobian": c_jac, "EKF::AttemptGpsInitialization": c_attempt, "GpsUpdater::MultiUpdateEKF": c_multi, "lla_to_enu": c_fn3("l2n")}
    for ini in (False, True):
        def setup(I_, ini=ini):
            this, args = gps_setup(h, lambda I_: [var("t", "R"), I_.alloc(v3(I_, "lla")), I_.alloc(mvar("Rn", I(3), I(3)))])(I_)
            e = I_.load(args[0]).set("m_is_lla_initialized", B(ini))
            I_.put(args[0], e)
            h.v = (e,) + h.v[1:]
            return this, args
        def post3(I_, p, ini=ini):
            e, lv, kk, u, ul, (t, gl, Rl) = h.v
            lla, N = p.load(gl), p.load(Rl)
            T = p.load(lv)
            ev = [x for x in I_.events if x[0] in ("predict", "kalman", "attempt", "multi")]
            names = [x[0] for x in ev]
            lt_ = ite(e.f["m_time_initialized"], sub(t, e.f["m_reference_time"]), R(0))
            p.prove("the filter is predicted first, exactly once", B(names[:1] == ["predict"] and names.count("predict") == 1))
            if names[:1] != ["predict"]:
                return
            p.prove("to the local time of the measurement", eq(ev[0][2], lt_))
            e2 = ev[0][3]
            if not ini:
                p.prove("without a reference the sample goes to the initialisation, once", B(names[1:2] == ["attempt"] and names.count("attempt") == 1 and "kalman" not in names))
                if names[1:2] != ["attempt"]:
                    return
                a = ev[1]
                p.prove("the sample's own time", eq(a[2], lt_))
                p.prove_mat("the sample's own position", a[3], lla)
                p.prove("the stored samples are used exactly when the reference is found", eq(B("multi" in names), a[4]))
                return
            p.prove("with a reference exactly one update is made", B(names[1:] == ["kalman"]))
            if names[1:] != ["kalman"]:
                return
            _, ek, H, r, Nk, out = ev[1]
            p.prove_mat("the Jacobian is that of the predicted state", H, gps_jacobian(e2, kk, u.f["m_is_extrinsic"]))
            an = e.f["m_ang_l_to_e"]
            x = fvec("l2n", comps(lla) + comps(e.f["m_pos_e_in_g"]))
            x0, x1, x2 = comps(x)
            z = vec(sub(mul(c_(an), x0), mul(s_(an), x1)), add(mul(s_(an), x0), mul(c_(an), x1)), x2)
            p.prove_mat("the residual is the measured minus the predicted antenna position", r, msub(z, gps_predicted(e2, kk)))
            p.prove_mat("the noise is the given one", Nk, N)
            SE.prove_same(p, "the estimate is that of the update: ", T, out)
            p.prove_mat("the covariance is that of the update", T.f["m_cov"], out.f["m_cov"])
        ctx.check("GpsUpdater::UpdateEKF", setup, post3, contracts=C, label="GpsUpdater::UpdateEKF " + ("(reference known)" if ini else "(no reference yet)"))
    # update with the samples collected before the reference was known
    def c_e2n_(I_, this, args, f):
        return fvec("e2n", comps(lib.val(I_, args[0])) + comps(lib.val(I_, args[1])))
    def c_compress(I_, this, args, f):
        J, r = lib.val(I_, args[0]), lib.val(I_, args[1])
        m = I_.sym("unsigned int", "rows'")
        I_.assume(le(m, J.r))
        J2, r2 = mvar("Jc", m, J.c), mvar("rc", m, I(1))
        I_.put(args[0], J2); I_.put(args[1], r2)
        I_.events.append(("compress", J, r, J2, r2))
        return None
    def setup(I_):
        this, args = gps_setup(h)(I_)
        e = I_.load(args[0])
        n = I_.sym("unsigned int", "samples")
        for f in ("m_gps_time_vec", "m_gps_ecef_vec", "m_gps_xyz_vec"):
            s = e.f[f]
            e = e.set(f, Seq(n, s.at, s.tag, s.ety))
        I_.put(args[0], e)
        h.v = (e,) + h.v[1:-1] + (n,)
        return this, args
    def c_jac2(I_, this, args, f):
        e, u = I_.load(args[0]), I_.load(this)
        return gps_jacobian(e, h.v[2], u.f["m_is_extrinsic"])
    def post4(I_, p):
        e, lv, kk, u, ul, n = h.v
        T = p.load(lv)
        ev = [x for x in I_.events if x[0] in ("compress", "kalman")]
        p.prove("the stacked samples are compressed once", B(bool(ev) and ev[0][0] == "compress" and len([x for x in ev if x[0] == "compress"]) == 1))
        if not ev:
            return
        _, J, r, J2, r2 = ev[0]
        k = var("k!", "I")
        rng = [le(I(0), k), lt(k, n)]
        p.prove("three rows per sample", and_(eq(J.r, mul(I(3), n)), eq(J.c, e.f["m_state_size"]), eq(r.r, mul(I(3), n))))
        p.prove_mat("each sample's rows are the GPS Jacobian", mblk(J, mul(I(3), k), I(0), I(3), e.f["m_state_size"]), gps_jacobian(e, kk, u.f["m_is_extrinsic"]), rng)
        an = e.f["m_ang_l_to_e"]
        x0, x1, x2 = comps(fvec("e2n", comps(e.f["m_gps_ecef_vec"].at(k)) + comps(e.f["m_pos_e_in_g"])))
        z = vec(sub(mul(c_(an), x0), mul(s_(an), x1)), add(mul(s_(an), x0), mul(c_(an), x1)), x2)
        p.prove_mat("each sample's residual is its local position minus the position at its time", mblk(r, mul(I(3), k), I(0), I(3), I(1)), msub(z, e.f["m_gps_xyz_vec"].at(k)), rng)
        kal = ev[1:]
        p.prove("one update, unless one row or fewer is left", B(len(kal) == 1) if kal else le(r2.r, I(1)))
        if kal:
            p.prove("with the compressed Jacobian and residual", B(kal[0][2] is J2 and kal[0][3] is r2))
            p.prove_mat("and unit noise", kal[0][4], mid(r2.r))
            SE.prove_same(p, "the estimate is that of the update: ", T, kal[0][5])
        else:
            SE.prove_same(p, "nothing changes without an update: ", T, e)
    ctx.check("GpsUpdater::MultiUpdateEKF", setup, post4, contracts={**SE.LOGC, "ecef_to_enu": c_e2n_, "Updater::KalmanUpdate": c_kalman, "CompressMeasurements": c_compress, "GpsUpdater::GetMeasurementJacobian": c_jac2})
