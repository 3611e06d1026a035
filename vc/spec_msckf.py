"""Lens model, triangulation and the feature-track (MSCKF) update."""
from common import *
from spec import *
import spec_ekf as SE
from spec_matrix import fmat, bi, bj
from spec_gps import c_predict, c_kalman, c_localtime, c_qjac, qjac, skew3, Box, prove_upd_frame, radd, comps, v3
from spec_upd import blocks, mprod, of, body


# ------------------------------------------------------------------ lens model
def project(x): return [div(x[0], x[2]), div(x[1], x[2])]


def distort(xy, k):
    x, y = xy
    k1, k2, p1, p2 = [k.f[n] for n in ("k_1", "k_2", "p_1", "p_2")]
    r2 = add(mul(x, x), mul(y, y))
    rad = radd(R(1), mul(k1, r2), mul(k2, mul(r2, r2)))
    return [radd(mul(x, rad), mul(mul(R(2), p1), mul(x, y)), mul(p2, add(r2, mul(R(2), mul(x, x))))),
            radd(mul(y, rad), mul(mul(R(2), p2), mul(x, y)), mul(p1, add(r2, mul(R(2), mul(y, y)))))]


def proj_jac(x):
    xs = [var(f"pj{i}", "R") for i in range(3)]
    m = dict(zip(xs, x))
    return mdense([[subst(diff(f, v), m) for v in xs] for f in project(xs)])


def dist_jac(xy, k):
    xs = [var("dj0", "R"), var("dj1", "R")]
    m = dict(zip(xs, xy))
    return mdense([[subst(diff(f, v), m) for v in xs] for f in distort(xs, k)])


def P18(ctx):
    h = Box()
    def setup(I_):
        h.v = v3(I_, "x")
        return None, [h.v]
    def post(I_, p):
        x = comps(h.v)
        p.prove("two entries", and_(eq(p.retv.r, I(2)), eq(p.retv.c, I(1))))
        for i, (n, e) in enumerate(zip("xy", project(x))):
            p.prove(f"projected {n} is {n} over depth", eq(elem(p.retv, i, 0), e), [not_(eq(x[2], R(0)))])
    ctx.check("MsckfUpdater::Project", setup, post)
    def setup2(I_):
        x, k = mvar("x", I(2), I(1)), I_.sym("Intrinsics", "k")
        h.v = (x, k)
        return None, [I_.alloc(x), I_.alloc(k)]
    def post2(I_, p):
        x, k = h.v
        p.prove("two entries", and_(eq(p.retv.r, I(2)), eq(p.retv.c, I(1))))
        for i, e in enumerate(distort([elem(x, 0, 0), elem(x, 1, 0)], k)):
            p.prove(f"distorted {'xy'[i]}: radial and tangential terms of the lens model", eq(elem(p.retv, i, 0), e))
    ctx.check("MsckfUpdater::Distort", setup2, post2)
    def setup3(I_):
        x, J = v3(I_, "x"), mvar("J0", I(2), I(3))
        h.v = (x, I_.alloc(J))
        return None, [I_.alloc(x), h.v[1]]
    def post3(I_, p):
        x, jl = h.v
        J = p.load(jl)
        e = proj_jac(comps(x))
        p.prove("size", and_(eq(J.r, I(2)), eq(J.c, I(3))))
        for i in range(2):
            for j in range(3):
                p.prove(f"entry {i},{j} is the derivative of the projection", eq(elem(J, i, j), elem(e, i, j)), [not_(eq(elem(x, 2, 0), R(0)))])
    ctx.check("MsckfUpdater::ProjectionJacobian", setup3, post3)
    def setup4(I_):
        x, k, J = mvar("x", I(2), I(1)), I_.sym("Intrinsics", "k"), mat(I_, "J0")
        h.v = (x, k, I_.alloc(J))
        return None, [I_.alloc(x), I_.alloc(k), h.v[2]]
    def post4(I_, p):
        x, k, jl = h.v
        J = p.load(jl)
        e = dist_jac([elem(x, 0, 0), elem(x, 1, 0)], k)
        p.prove("size", and_(eq(J.r, I(2)), eq(J.c, I(2))))
        for i in range(2):
            for j in range(2):
                p.prove(f"entry {i},{j} is the derivative of the distortion", eq(elem(J, i, j), elem(e, i, j)))
    ctx.check("MsckfUpdater::DistortionJacobian", setup4, post4)


# ------------------------------------------------------------------ triangulation
def opq(name, args=()):
    return mdense([[app(f"{name}.{i}{j}", list(args), "R") if args else var(f"{name}.{i}{j}", "R") for j in range(3)] for i in range(3)])


def aug_at(frame, time):
    """pose of the body at a frame: the filter's answer (its contract is P20)"""
    a = [app("aug." + n, [frame, time], "R") for n in ("px", "py", "pz", "w", "x", "y", "z", "alpha")]
    q = Quat(*a[3:7])
    return vec(*a[:3]), q, opaque_rot(q, opq("aug.rot", (frame, time))), a[7], app("aug.index", [frame, time], "I")


def c_aug(I_, this, args, f):
    """GetAugState: a pose that depends on the frame and its time only (P20); the filter is not changed"""
    e = I_.load(this)
    cam, fr, t = [lib.val(I_, x) for x in args]
    p, q, _, al, ix = aug_at(fr, t)
    I_.augs.append((e, cam, fr, t, list(I_.pc)))
    return I_.sym("AugState", "aug", (fr, t)).set("frame_id", fr).set("time", t).set("pos_b_in_l", p).set("ang_b_to_l", q).set("alpha", al).set("index", ix).set("size", I(6))


def direction(kp, k):
    """pixel to viewing direction in the camera"""
    return [div(sub(kp.f["pt"].f["x"], div(k.f["width"], R(2))), div(k.f["f_x"], k.f["pixel_size"])),
            div(sub(kp.f["pt"].f["y"], div(k.f["height"], R(2))), div(k.f["f_y"], k.f["pixel_size"]))]


def loopvars(x): return sorted((v for v in set().union(*[set(subterms(y)) for y in dense_list(x)]) if isinstance(v, E) and v.op == "v" and str(v.args[0]).startswith("k@")), key=lambda v: v.args[0])


def camera_at(u, tr, i):
    """camera centre, rotation and key point of track entry i"""
    q = tr.at(i)
    pb, _, Rb, _, _ = aug_at(q.f["frame_id"], q.f["frame_time"])
    return madd(mmul(Rb, u.f["m_pos_c_in_b"]), pb), mmul(Rb, opq("Rc")), q.f["key_point"]


def c_skew_dir(h):
    """cross-product matrix (P12) of the viewing ray; the ray itself is checked here, then named"""
    def c(I_, this, args, f):
        e, lv, u, ul, ft, xl, x0 = h.v
        d = lib.val(I_, args[0])
        ks = loopvars(d)
        if len(ks) != 1:
            return skew3(d)
        t = ks[0]
        if d not in h.seen:
            h.seen.add(d)
            _, R0, _ = camera_at(u, ft.f["track"], I(0))
            _, Ri, kp = camera_at(u, ft.f["track"], t)
            dx, dy = direction(kp, u.f["m_intrinsics"])
            nrm = fn("sqrt", radd(mul(dx, dx), mul(dy, dy), R(1)))
            I_.P.prove_mat("viewing ray of each frame: unit direction of its key point, turned into the first frame", d, mscale(div(R(1), nrm), mmul(mmul(mtr(R0), Ri), vec(dx, dy, R(1)))), list(I_.pc))
        return skew3(dirv(t))
    return c


def dirv(t): return vec(*[app("ray." + c, [t], "R") for c in "xyz"])


def ms_setup(I_, h, true_tri=False):
    I_.augs = []
    e = SE.inv_ekf(I_, None)
    u = I_.sym("MsckfUpdater", "u").set("m_use_true_triangulation", B(true_tri))
    opaque_rot(u.f["m_ang_c_to_b"], opq("Rc"))
    return e, u


def P19(ctx):
    h = Box()
    for tt in (False, True):
        def setup(I_, tt=tt):
            e, u = ms_setup(I_, h, tt)
            I_.fresh_solve = True
            ft = I_.sym("FeatureTrack", "ft")
            I_.assume(lt(I(0), ft.f["track"].n))
            x0 = v3(I_, "x0")
            lv, ul, fl, xl = I_.alloc(e), I_.alloc(u), I_.alloc(ft), I_.alloc(x0)
            h.v = (e, lv, u, ul, ft, xl, x0)
            h.seen = set()
            return ul, [var("t", "R"), lv, fl, xl]
        def post(I_, p, tt=tt):
            e, lv, u, ul, ft, xl, x0 = h.v
            ev = [x for x in I_.events if x[0] == "solve"]
            p.prove("one linear system is solved", B(len(ev) == 1))
            if len(ev) != 1:
                return
            if not h.seen:
                raise Unsupported("the viewing rays are not named through SkewSymmetric")
            _, A, b, x = ev[0]
            tr, k = ft.f["track"], u.f["m_intrinsics"]
            p0, R0, _ = camera_at(u, tr, I(0))
            t = var("t!", "I")
            pi, Ri, kp = camera_at(u, tr, t)
            S = skew3(dirv(t))
            Ai = mmul(mtr(S), S)
            bi_ = mmul(Ai, mmul(mtr(R0), msub(pi, p0)))
            sm = lambda M: mdense([[mk("psum", (tr.n, t, z), "R") for z in row] for row in dense(M)])
            p.prove_mat("left side: the projections off all viewing rays, summed over the whole track", A, sm(Ai))
            p.prove_mat("right side: the same of the camera centres", b, sm(bi_))
            z = elem(x, 2, 0)
            ok = and_(le(u.f["m_min_feat_dist"], z), le(z, u.f["m_max_feat_dist"]))
            if tt:
                p.prove("the simulated position is always usable", p.retv)
                p.prove_mat("the simulated position is used", p.load(xl), ft.f["true_feature_position"])
            else:
                p.prove("accepted exactly when the depth in the first frame is within the limits", eq(p.retv, ok))
                p.prove_mat("the solution in the local frame", p.load(xl), madd(p0, mmul(R0, x)), [p.retv])
            SE.prove_same(p, "the filter is left alone: ", p.load(lv), e)
            prove_upd_frame(p, ul, u, but=("m_triangulation_logger",))
            for (e_, c_, fr, tm, pc_) in I_.augs[-2:]:
                p.prove("poses are those of this camera", eq(c_, u.f["m_id"]))
        ctx.check("MsckfUpdater::TriangulateFeature", setup, post, contracts={**SE.LOGC, "EKF::GetAugState": c_aug, "SkewSymmetric": c_skew_dir(h)}, label="MsckfUpdater::TriangulateFeature" + (" (simulated positions)" if tt else ""))


# ------------------------------------------------------------------ the update
def apv(name, ix, r, c=1): return mdense([[app(f"{name}.{i}{j}", list(ix), "R") for j in range(c)] for i in range(r)])
def heads_left(x): return any(v.op == "v" and str(v.args[0]).startswith("h@") for y in dense_list(x) for v in subterms(y))
def dense_list(x): return [y for row in dense(x) for y in row]


class Named:
    """a callee whose result is named by the loop counters: its arguments are checked against the expected ones at every call"""
    def __init__(self, h, what, expected, result, out=None):
        self.h, self.what, self.expected, self.result, self.out = h, what, expected, result, out

    def __call__(self, I_, this, args, f):
        x = lib.val(I_, args[0])
        ks = loopvars(x)
        if len(ks) < 2 or heads_left(x):
            r = self.result((I(0), I(0)))
        else:
            if (self.what, x) not in self.h.seen:
                self.h.seen.add((self.what, x))
                I_.P.prove_mat(self.what, x, self.expected(*ks[:2]), list(I_.pc))
            self.h.called.add(self.what)
            r = self.result(ks[:2])
        if self.out is not None:
            I_.put(args[self.out], r)
            return None
        return r


def P21(ctx):
    h = Box()
    jkeys = lambda x: sorted((v for v in subterms(x) if v.op == "v" and str(v.args[0]).startswith("k@")), key=lambda v: v.args[0])
    X = lambda k: vec(*[app("tri." + c, [k], "R") for c in "xyz"])
    def entry(k, t):
        e2, kk, u, fts = h.e2, h.v[2], h.v[3], h.v[5]
        o = of(e2, "cam_states", kk)
        q = fts.at(k).f["track"].at(t)
        pb, qb, Rb, al, ix = aug_at(q.f["frame_id"], q.f["frame_time"])
        Rc = opq("Rc")
        xb = mmul(mtr(Rb), msub(X(k), pb))
        return Box(o=o, q=q, pb=pb, qb=qb, Rb=Rb, al=al, ix=ix, Rc=Rc, xb=xb, x=mmul(mtr(Rc), msub(xb, o.f["pos_c_in_b"])), Rl=mmul(mtr(Rc), mtr(Rb)))
    D = lambda k, t: mmul(apv("distjac", (k, t), 2, 2), apv("projjac", (k, t), 2, 3))
    def row_f(k, t): return mmul(D(k, t), entry(k, t).Rl)
    def row_r(k, t):
        a = entry(k, t)
        return msub(vec(*direction(a.q.f["key_point"], a.o.f["intrinsics"])), apv("distorted", (k, t), 2))
    def row_c(k, t):
        a = entry(k, t)
        n = h.e2.f["m_state_size"]
        d = D(k, t)
        Ht0, Ht1 = mneg(a.Rl), mprod(a.Rl, skew3(msub(X(k), a.pb)), mtr(qjac(a.qb)))
        A0, A1 = mmul(d, Ht0), mmul(d, Ht1)
        mid_ = not_(eq(a.al, R(0)))
        last = lt(n, add(a.ix, I(12)))
        w = ite(mid_, sub(R(1), a.al), R(1))
        cext, ic = h.v[3].f["m_is_cam_extrinsic"], a.o.f["index"]
        return blocks(2, n, [
            (0, ic, mneg(mmul(d, mtr(a.Rc))), cext), (0, add(ic, I(3)), mprod(d, mtr(a.Rc), skew3(msub(a.xb, a.o.f["pos_c_in_b"])), mtr(qjac(a.o.f["ang_c_to_b"]))), cext),
            (0, a.ix, mscale(w, A0), TRUE), (0, add(a.ix, I(3)), mscale(w, A1), TRUE),
            (0, 0, mscale(a.al, A0), and_(mid_, last)), (0, 9, mscale(a.al, A1), and_(mid_, last)),
            (0, add(a.ix, I(6)), mscale(a.al, A0), and_(mid_, not_(last))), (0, add(a.ix, I(9)), mscale(a.al, A1), and_(mid_, not_(last)))])
    def c_pred(I_, this, args, f):
        c_predict(I_, this, args, f)
        h.e2 = e2 = I_.load(this)
        o = of(e2, "cam_states", h.v[2])
        opaque_rot(o.f["ang_c_to_b"], opq("Rc"))
        n, lo = e2.f["m_state_size"], Layout(e2.f["m_state"]).start("aug_states")
        I_.P.axioms["aug.index"] = lambda ts: [z for x in ts for z in (le(lo, x), le(add(x, I(6)), n))]     # a clone of the filter (P20)
        return None
    def c_aug2(I_, this, args, f):
        e = I_.load(this)
        a = c_aug(I_, this, args, f)
        if ("aug", a.f["index"]) not in h.seen:
            h.seen.add(("aug", a.f["index"]))
            I_.P.prove("poses are those of this camera", eq(lib.val(I_, args[0]), h.v[3].f["m_id"]), list(I_.pc))
        return a
    def c_tri(I_, this, args, f):
        e, u, ft = I_.load(args[1]), I_.load(this), I_.load(args[2])
        ks = jkeys(ft.f["track"].n)
        k = ks[0] if ks else I(0)
        o = of(e, "cam_states", h.v[2])
        if ("tri", k) not in h.seen:
            h.seen.add(("tri", k))
            P = I_.P
            P.prove_mat("features are triangulated with the predicted camera position", u.f["m_pos_c_in_b"], o.f["pos_c_in_b"], list(I_.pc))
            for c in "wxyz":
                P.prove("... orientation " + c, eq(getattr(u.f["m_ang_c_to_b"], c), getattr(o.f["ang_c_to_b"], c)), list(I_.pc))
            for c, x in o.f["intrinsics"].f.items():
                P.prove("... and intrinsics " + c, eq(u.f["m_intrinsics"].f[c], x), list(I_.pc))
        I_.put(args[3], X(k))
        return app("tri.ok", [k], "B")
    def c_null(I_, this, args, f):
        Hf, Hx, r = [lib.val(I_, a) for a in args]
        ks = jkeys(Hx.r)
        if not ks:
            raise Unsupported("feature rows outside the loop over the features")
        k = ks[0]
        m = mul(I(2), h.v[5].at(k).f["track"].n)
        if ("null", Hf, Hx, r) not in h.seen and Hx.op == "mloop":
            h.seen.add(("null", Hf, Hx, r))
            P, pc = I_.P, list(I_.pc)
            t = var("t!", "I")
            rng = [le(I(0), t), lt(mul(I(2), t), m)]
            n = h.e2.f["m_state_size"]
            P.prove("two rows per frame of the track", and_(eq(Hf.r, m), eq(Hf.c, I(3)), eq(Hx.r, m), eq(Hx.c, n), eq(r.r, m)), pc)
            P.prove_mat("each frame's residual: measured minus predicted image point", mblk(r, mul(I(2), t), I(0), I(2), I(1)), row_r(k, t), pc + rng)
            P.prove_mat("each frame's rows by the feature position", mblk(Hf, mul(I(2), t), I(0), I(2), I(3)), row_f(k, t), pc + rng)
            P.prove_mat("each frame's rows by clones, body and camera; zero elsewhere", mblk(Hx, mul(I(2), t), I(0), I(2), n), row_c(k, t), pc + rng)
            h.called.add("null")
        rows = sub(Hx.r, I(3))
        I_.put(args[1], mmk("fmat", ("Hnull", k), rows, Hx.c))
        I_.put(args[2], mmk("fmat", ("rnull", k), rows, I(1)))
    def c_comp(I_, this, args, f):
        Hx, r = [lib.val(I_, a) for a in args]
        m = I_.sym("unsigned int", "comp.rows")
        J2, r2 = mvar("Hcomp", m, Hx.c), mvar("rcomp", m, I(1))
        I_.put(args[0], J2)
        I_.put(args[1], r2)
        I_.events.append(("compress", Hx, r, J2, r2))
    N = lambda *a, **k: Named(h, *a, **k)
    C = {**SE.LOGC, "EKF::GetAugState": c_aug2, "EKF::PredictModel": c_pred, "EKF::CalculateLocalTime": c_localtime, "Updater::KalmanUpdate": c_kalman, "QuaternionJacobian": c_qjac,
         "MsckfUpdater::TriangulateFeature": c_tri, "ApplyLeftNullspace": c_null, "CompressMeasurements": c_comp,
         "MsckfUpdater::Project": N("the feature is projected from its position in the camera", lambda k, t: entry(k, t).x, lambda ix: apv("projected", ix, 2)),
         "MsckfUpdater::Distort": N("the projected point is distorted", lambda k, t: apv("projected", (k, t), 2), lambda ix: apv("distorted", ix, 2)),
         "MsckfUpdater::ProjectionJacobian": N("the projection is differentiated at the feature", lambda k, t: entry(k, t).x, lambda ix: apv("projjac", ix, 2, 3), out=1),
         "MsckfUpdater::DistortionJacobian": N("the distortion is differentiated at the projected point", lambda k, t: apv("projected", (k, t), 2), lambda ix: apv("distjac", ix, 2, 2), out=2)}
    def setup(I_):
        I_.augs = []
        h.seen, h.called = set(), set()
        e = SE.inv_ekf(I_, None).set("m_use_first_estimate_jacobian", B(False))
        kk = I_.sym("unsigned int", "kk")
        M = e.f["m_state"].f["cam_states"]
        I_.assume(le(I(0), kk)); I_.assume(lt(kk, M.n))
        u = I_.sym("MsckfUpdater", "u").set("m_id", M.key(kk)).set("m_is_cam_extrinsic", of(e, "cam_states", kk).f["is_extrinsic"])
        fts = I_.sym("std::vector<FeatureTrack>", "fts")
        I_.P.axioms["fts[].track.len"] = lambda ts: [le(I(2), x) for x in ts]     # a track has at least two frames
        lv, ul, fl = I_.alloc(e), I_.alloc(u), I_.alloc(fts)
        h.v = (e, lv, kk, u, ul, fts)
        return ul, [lv, var("t", "R"), fl, var("px", "R")]
    def post(I_, p):
        e, lv, kk, u, ul, fts = h.v
        T = p.load(lv)
        ev = [x for x in I_.events if x[0] in ("predict", "compress", "kalman")]
        names = [x[0] for x in ev]
        p.prove("one prediction first", B(names[:1] == ["predict"]))
        if names[:1] != ["predict"]:
            return
        p.prove("predicted to the local time of the tracks", eq(ev[0][2], ite(e.f["m_time_initialized"], sub(var("t", "R"), e.f["m_reference_time"]), R(0))))
        SE.prove_same(p, "predicted from the estimate before: ", ev[0][1], e, but=("m_time_initialized", "m_reference_time", "m_current_time"))
        e2 = ev[0][3]
        n = e2.f["m_state_size"]
        k, i, j = var("k!", "I"), var("i!", "I"), var("j!", "I")
        ct = lambda x: mk("psum", (x, k, ite(app("tri.ok", [k], "B"), sub(mul(I(2), fts.at(k).f["track"].n), I(3)), I(0))), "I")
        out = e2
        if "compress" in names:
            _, Hx, r, J2, r2 = [x for x in ev if x[0] == "compress"][0]
            p.prove("as wide as the state", and_(eq(Hx.c, n), eq(r.c, I(1)), eq(Hx.r, r.r)))
            p.prove("room for all rows", le(ct(fts.n), Hx.r))
            rows = sub(mul(I(2), fts.at(k).f["track"].n), I(3))
            inr = [le(I(0), k), lt(k, fts.n), app("tri.ok", [k], "B"), le(I(0), i), lt(i, rows), le(I(0), j), lt(j, n)]
            at = add(ct(k), i)
            p.prove("the rows of every triangulated feature are stacked in order", eq(elem(Hx, at, j), elem(mmk("fmat", ("Hnull", k), rows, n), i, j)), inr)
            p.prove("so are its residuals", eq(elem(r, at, I(0)), elem(mmk("fmat", ("rnull", k), rows, I(1)), i, I(0))), inr)
            inr = [le(ct(fts.n), i), lt(i, Hx.r), le(I(0), j), lt(j, n)]
            p.prove("nothing else is stacked", eq(elem(Hx, i, j), R(0)), inr)
            p.prove("no other residual either", eq(elem(r, i, I(0)), R(0)), inr)
            if "kalman" in names:
                _, ek, H, rr, N, out = ev[-1]
                p.prove("two or more rows are left", le(I(2), r2.r))
                p.prove_mat("the update uses the compressed Jacobian", H, J2)
                p.prove_mat("... and residual", rr, r2)
                s = ite(lt(var("px", "R"), R("1/2")), R("1/2"), var("px", "R"))
                p.prove_mat("the noise of every row is the pixel error, at least half a pixel", N, mscale(mul(s, s), mid(r2.r)))
                SE.prove_same(p, "the update starts from the prediction: ", ek, e2)
                p.prove("every frame of every feature is linearised", B({"null", *(x.what for x in C.values() if isinstance(x, Named))} <= h.called))
            else:
                p.prove("only degenerate measurements are dropped", le(r2.r, I(1)))
        else:
            p.prove("no update only when there is no usable feature", or_(eq(fts.n, I(0)), eq(ct(fts.n), I(0))))
        SE.prove_same(p, "the estimate is that of the update: ", T, out)
        p.prove_mat("the covariance is that of the update", T.f["m_cov"], out.f["m_cov"])
        prove_upd_frame(p, ul, u, but=("m_intrinsics", "m_pos_c_in_b", "m_ang_c_to_b", "m_is_first_estimate", "m_msckf_logger", "m_triangulation_logger"))
    ctx.check("MsckfUpdater::UpdateEKF", setup, post, contracts=C)
