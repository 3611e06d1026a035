"""IMU, fiducial and MSCKF measurement updates."""
from common import *
from spec import *
import spec_ekf as SE
from spec_matrix import fmat, bi, bj
from spec_gps import c_predict, c_kalman, c_localtime, c_qjac, qjac, skew3, Box, prove_upd_frame, radd, comps, v3

G = vec(R(0), R(0), R("9.80665"))


def pick(M, i, j):
    """entry (i, j) of a dense matrix at symbolic indices"""
    d = dense(M)
    r = R(0)
    for a in range(len(d)):
        for b in range(len(d[0])):
            r = ite(and_(eq(i, I(a)), eq(j, I(b))), d[a][b], r)
    return r


def blocks(rows, n, parts):
    """rows x n matrix with the dense blocks parts = [(row, col, matrix, condition)], zero elsewhere (blocks do not overlap)"""
    v = R(0)
    for (r, c, M, cond) in parts:
        h, w = len(dense(M)), len(dense(M)[0])
        r, c = lift(r), lift(c)
        v = ite(and_(cond, le(r, bi), lt(bi, add(r, I(h))), le(c, bj), lt(bj, add(c, I(w)))), pick(M, sub(bi, r), sub(bj, c)), v)
    return fmat(lift(rows), n, v)


def mprod(*a):
    out = a[0]
    for x in a[1:]:
        out = mmul(out, x)
    return out


def of(e, m, kk): return e.f["m_state"].f[m].val(kk)
def body(e): return e.f["m_state"].f["body_state"]


# ------------------------------------------------------------------ IMU
def imu_upd(I_, e, kk):
    u = I_.sym("ImuUpdater", "u")
    M = e.f["m_state"].f["imu_states"]
    I_.assume(le(I(0), kk)); I_.assume(lt(kk, M.n))
    o = of(e, "imu_states", kk)
    return u.set("m_id", M.key(kk)).set("m_is_extrinsic", o.f["is_extrinsic"]).set("m_is_intrinsic", o.f["is_intrinsic"])


def imu_setup(h, args=lambda I_: [], intr=None, tweak=None):
    def setup(I_):
        e = SE.inv_ekf(I_, None)
        kk = I_.sym("unsigned int", "kk")
        if intr is not None:
            I_.assume(eq(of(e, "imu_states", kk).f["is_intrinsic"], B(intr)))
        if tweak:
            e = tweak(I_, e)
        u = imu_upd(I_, e, kk)
        if intr is not None:
            u = u.set("m_is_intrinsic", B(intr))
        lv, ul = I_.alloc(e), I_.alloc(u)
        extra = args(I_)
        h.v = (e, lv, kk, u, ul, extra)
        return ul, [lv] + extra
    return setup


def grav_i(e, kk):
    """gravity in the IMU frame"""
    return qrot(qconj(of(e, "imu_states", kk).f["ang_i_to_b"]), qrot(qconj(body(e).f["ang_b_to_l"]), G))


def zero_jac(e, kk, ext, intr):
    """minus the derivative of bias + gravity (and gyro bias) with respect to the state vector"""
    o, b = of(e, "imu_states", kk), body(e)
    A = mneg(skew3(grav_i(e, kk)))
    Ri = qmat(qconj(o.f["ang_i_to_b"]))
    mI = mneg(mid(I(3)))
    rows = ite(intr, I(6), I(3)) if not intr.op == "b" else I(6 if intr is TRUE else 3)
    return blocks(rows, e.f["m_state_size"], [(0, 9, mprod(A, Ri, qjac(b.f["ang_b_to_l"])), TRUE), (0, add(o.f["index_extrinsic"], I(3)), mprod(A, qjac(o.f["ang_i_to_b"])), ext),
                                              (0, o.f["index_intrinsic"], mI, intr), (3, add(o.f["index_intrinsic"], I(3)), mI, intr)])


def imu_pred(e, kk):
    """documented model: acceleration and rate of the IMU point, in the IMU frame, plus the biases"""
    o, b = of(e, "imu_states", kk), body(e)
    Ri, Rb = qmat(qconj(o.f["ang_i_to_b"])), qmat(qconj(b.f["ang_b_to_l"]))
    w, al, p_ = b.f["ang_vel_b_in_l"], b.f["ang_acc_b_in_l"], o.f["pos_i_in_b"]
    W = skew3(w)
    a = madd(madd(mmul(Rb, b.f["acc_b_in_l"]), mmul(skew3(al), p_)), mmul(W, mmul(W, p_)))
    return [madd(o.f["acc_bias"], mmul(Ri, a)), madd(o.f["omg_bias"], mmul(Ri, mmul(Rb, w)))], a


def imu_jac(e, kk, ext, intr):
    o, b = of(e, "imu_states", kk), body(e)
    Ri, Rb = qmat(qconj(o.f["ang_i_to_b"])), qmat(qconj(b.f["ang_b_to_l"]))
    w, al, p_ = b.f["ang_vel_b_in_l"], b.f["ang_acc_b_in_l"], o.f["pos_i_in_b"]
    W = skew3(w)
    wp = mmul(W, p_)
    _, a = imu_pred(e, kk)
    J, Ji = mtr(qjac(b.f["ang_b_to_l"])), qjac(o.f["ang_i_to_b"])
    R_ = mmul(Ri, Rb)
    ie, ii = o.f["index_extrinsic"], o.f["index_intrinsic"]
    return blocks(6, e.f["m_state_size"], [
        (0, 6, R_, TRUE), (0, 9, mprod(R_, skew3(b.f["acc_b_in_l"]), J), TRUE), (0, 12, mmul(Ri, mneg(madd(mmul(W, skew3(p_)), skew3(wp)))), TRUE), (0, 15, mneg(mmul(Ri, skew3(p_))), TRUE),
        (3, 9, mprod(R_, skew3(w), J), TRUE), (3, 12, R_, TRUE),
        (0, ie, mmul(Ri, madd(skew3(al), mmul(W, W))), ext), (0, add(ie, I(3)), mmul(skew3(mmul(Ri, a)), Ji), ext), (3, add(ie, I(3)), mmul(skew3(mmul(R_, w)), Ji), ext),
        (0, ii, mid(I(3)), intr), (3, add(ii, I(3)), mid(I(3)), intr)])


def stack(a, b):
    """two three-vectors on top of each other"""
    return vec(*(comps(a) + comps(b)))


def bdiag(A, B_): return blocks(6, I(6), [(0, 0, A, TRUE), (3, 3, B_, TRUE)])


def P16(ctx):
    h = Box()
    QJ = {"QuaternionJacobian": c_qjac}
    def unchanged(p, what):
        e, lv, kk, u, ul, _ = h.v
        SE.prove_same(p, what + " leaves the filter alone: ", p.load(lv), e)
        prove_upd_frame(p, ul, u, but=("m_data_logger",))
    def post_pred(I_, p):
        e, lv, kk, u, ul, _ = h.v
        (a, w), _ = imu_pred(e, kk)
        p.prove_mat("predicted acceleration and rate are those of the documented model", p.retv, stack(a, w))
        unchanged(p, "prediction")
    ctx.check("ImuUpdater::PredictMeasurement", imu_setup(h), post_pred)
    def post_jac(I_, p):
        e, lv, kk, u, ul, _ = h.v
        p.prove_mat("Jacobian is the derivative of the documented model; zero elsewhere", p.retv, imu_jac(e, kk, u.f["m_is_extrinsic"], u.f["m_is_intrinsic"]))
        unchanged(p, "the Jacobian")
    ctx.check("ImuUpdater::GetMeasurementJacobian", imu_setup(h), post_jac, contracts=QJ)
    for intr in (False, True):
        def post_z(I_, p, intr=intr):
            e, lv, kk, u, ul, _ = h.v
            p.prove_mat("stationary Jacobian: gravity by both orientations, biases, zero elsewhere", p.retv, zero_jac(e, kk, u.f["m_is_extrinsic"], B(intr)))
            unchanged(p, "the Jacobian")
        ctx.check("ImuUpdater::GetZeroAccelerationJacobian", imu_setup(h, intr=intr), post_z, contracts=QJ, label=f"ImuUpdater::GetZeroAccelerationJacobian ({'with' if intr else 'without'} biases)")

    # the stationary update
    def c_zjac(I_, this, args, f):
        e, u = I_.load(args[0]), I_.load(this)
        I_.events.append(("zjac", e))
        return zero_jac(e, h.v[2], u.f["m_is_extrinsic"], u.f["m_is_intrinsic"])
    C = {**SE.LOGC, "EKF::PredictModel": c_predict, "EKF::CalculateLocalTime": c_localtime, "Updater::KalmanUpdate": c_kalman, "ImuUpdater::GetZeroAccelerationJacobian": c_zjac}
    meas = lambda I_: [I_.alloc(v3(I_, "acc")), I_.alloc(mvar("Na", I(3), I(3))), I_.alloc(v3(I_, "omg")), I_.alloc(mvar("Nw", I(3), I(3)))]
    for intr in (False, True):
        for root in (False, True):
            def post(I_, p, intr=intr, root=root):
                e, lv, kk, u, ul, (t, al, Nal, wl, Nwl) = h.v
                a, Na, w, Nw = [p.load(x) for x in (al, Nal, wl, Nwl)]
                T, U = p.load(lv), p.load(ul)
                o = of(e, "imu_states", kk)
                m = 6 if intr else 3
                ra = madd(msub(grav_i(e, kk), a), o.f["acc_bias"])
                rw = msub(o.f["omg_bias"], w)
                r = stack(ra, rw) if intr else vec(*comps(ra))
                N = bdiag(Na, Nw) if intr else Na
                H = zero_jac(e, kk, u.f["m_is_extrinsic"], B(intr))
                P = mmul(mtr(e.f["m_cov"]), e.f["m_cov"]) if root else e.f["m_cov"]
                S = madd(mprod(H, P, mtr(H)), mscale(e.f["m_imu_noise_scale_factor"], N))
                iv = [x[1] for x in I_.events if x[0] == "inverse"]
                if iv:
                    p.prove_mat("the innovation covariance is that of the prediction plus the scaled noise", iv[0], S)
                    S = iv[0]
                score = elem(mprod(mtr(r), lib.minv_small(S), r), 0, 0)
                score = ite(lt(score, R(0)), neg(score), score)
                chi = e.f["m_motion_detection_chi_squared"]
                latched = or_(u.f["m_initial_motion_detected"], and_(lt(chi, score), e.f["m_is_gravity_initialized"]))
                p.prove("refused exactly after motion was seen, or when the score exceeds the bound with gravity known", eq(p.retv, not_(latched)))
                p.prove("motion once seen stays seen", eq(U.f["m_initial_motion_detected"], latched))
                prove_upd_frame(p, ul, u, but=("m_data_logger", "m_initial_motion_detected"))
                ev = [x for x in I_.events if x[0] in ("predict", "kalman")]
                p.prove("predicted and updated once each when stationary, in this order, else neither", B([x[0] for x in ev] in ([], ["predict", "kalman"])))
                p.prove("updated exactly when stationary", eq(B(bool(ev)), p.retv))
                if not ev:
                    SE.prove_same(p, "refused: the filter is left alone: ", T, e)
                    return
                ep = ev[0][1]
                p.prove("gravity is taken as known once the score is below the bound", eq(ep.f["m_is_gravity_initialized"], or_(e.f["m_is_gravity_initialized"], lt(score, chi))))
                SE.prove_same(p, "before the prediction: ", ep, e, but=("m_is_gravity_initialized",))
                p.prove("predicted to the time of the measurement", eq(ev[0][2], t))
                _, ek, Hk, rk, Nk, out = ev[1]
                p.prove_mat("updated with the Jacobian of the predicted state", Hk, zero_jac(ev[0][3], kk, u.f["m_is_extrinsic"], B(intr)))
                p.prove_mat("updated with the residual of gravity and biases", rk, r)
                p.prove_mat("updated with the given noise", Nk, N)
                bo = body(out).set("acc_b_in_l", G).set("ang_vel_b_in_l", vec(R(0), R(0), R(0))).set("ang_acc_b_in_l", vec(R(0), R(0), R(0)))
                SE.prove_same(p, "the body is at rest, all else is that of the update: ", T, out.set("m_state", out.f["m_state"].set("body_state", bo)))
            tw = lambda I_, e, root=root: e.set("m_use_root_covariance", B(root))
            ctx.check("ImuUpdater::ZeroAccelerationUpdate", imu_setup(h, lambda I_: [var("t", "R")] + meas(I_), intr=intr, tweak=tw), post, contracts=C,
                      label=f"ImuUpdater::ZeroAccelerationUpdate ({'with' if intr else 'without'} biases, {'root' if root else 'covariance'} form)")

    # the whole update
    def c_zero(I_, this, args, f):
        e = I_.load(args[0])
        still = fresh("still", "B")
        I_.events.append(("zero", e, [lib.val(I_, x) for x in args[1:]], still))
        S = I_.sym("BodyState", "still.body").set("index", I(0))
        out = e.set("m_state", e.f["m_state"].set("body_state", S))
        I_.put(args[0], out if still is TRUE else e.set("m_state", e.f["m_state"].set("body_state", merge(still, S, body(e)))))
        return still
    def c_pm(I_, this, args, f):
        e = I_.load(args[0])
        I_.events.append(("pm", e))
        return mvar("predmeas", I(6), I(1))
    def c_mj(I_, this, args, f):
        e = I_.load(args[0])
        I_.events.append(("mj", e))
        return mvar("measjac", I(6), e.f["m_state_size"])
    C2 = {**SE.LOGC, "EKF::PredictModel": c_predict, "EKF::CalculateLocalTime": c_localtime, "Updater::KalmanUpdate": c_kalman,
          "ImuUpdater::ZeroAccelerationUpdate": c_zero, "ImuUpdater::PredictMeasurement": c_pm, "ImuUpdater::GetMeasurementJacobian": c_mj}
    def post_u(I_, p):
        e, lv, kk, u, ul, (t, al, Nal, wl, Nwl) = h.v
        a, Na, w, Nw = [p.load(x) for x in (al, Nal, wl, Nwl)]
        T = p.load(lv)
        ev = [x for x in I_.events if x[0] in ("zero", "predict", "kalman", "pm", "mj")]
        p.prove("the stationary update is tried first, once", B([x[0] for x in ev].count("zero") == 1 and ev[0][0] == "zero"))
        if not ev or ev[0][0] != "zero":
            return
        z = ev[0]
        lt_ = ite(e.f["m_time_initialized"], sub(t, e.f["m_reference_time"]), R(0))
        p.prove("at the local time of the measurement", eq(z[2][0], lt_))
        for (n_, x, y) in zip(("acceleration", "its noise", "rate", "its noise"), z[2][1:], (a, Na, w, Nw)):
            p.prove_mat("with the measured " + n_, x, y)
        p.prove("the filter knows whether it is stationary", eq(T.f["m_is_zero_acceleration"], z[3]))
        names = [x[0] for x in ev[1:]]
        if not names:
            p.prove("nothing more when stationary", z[3])
            return
        p.prove("the moving update is made only when not stationary", not_(z[3]))
        o = of(e, "imu_states", kk)
        n = e.f["m_state"].f["imu_states"].n
        if "kalman" not in names:
            p.prove("a single IMU drives the prediction directly", eq(n, I(1)))
            p.prove("one prediction", B(names == ["predict"]))
            if names != ["predict"]:
                return
            ep = ev[1][1]
            Rq = mmul(qmat(body(e).f["ang_b_to_l"]), qmat(o.f["ang_i_to_b"]))
            bo = body(e).set("acc_b_in_l", mmul(Rq, msub(a, o.f["acc_bias"]))).set("ang_vel_b_in_l", mmul(Rq, msub(w, o.f["omg_bias"]))).set("ang_acc_b_in_l", vec(R(0), R(0), R(0)))
            SE.prove_same(p, "bias-free, rotated measurement is the body motion; all else is kept: ", ep, e.set("m_state", e.f["m_state"].set("body_state", bo)), but=("m_is_zero_acceleration", "m_time_initialized", "m_reference_time", "m_current_time"))
            p.prove("predicted to the local time of the measurement", eq(ev[1][2], lt_))
            SE.prove_same(p, "the estimate is the prediction: ", T, ev[1][3])
            return
        p.prove("several IMUs make one update", not_(eq(n, I(1))))
        p.prove("one update, then one prediction", B(sorted(names) == ["kalman", "mj", "pm", "predict"] and names[-2:] == ["kalman", "predict"]))
        if sorted(names) != ["kalman", "mj", "pm", "predict"] or names[-2:] != ["kalman", "predict"]:
            return
        _, ek, Hk, rk, Nk, out = ev[3]
        p.prove_mat("with the Jacobian of this IMU", Hk, mvar("measjac", I(6), e.f["m_state_size"]))
        p.prove_mat("with measured minus predicted values", rk, msub(stack(a, w), mvar("predmeas", I(6), I(1))))
        p.prove_mat("with the given noise, uncorrelated", Nk, bdiag(Na, Nw))
        for x in ev[1:4]:
            SE.prove_same(p, "from the estimate before: ", x[1], e, but=("m_is_zero_acceleration", "m_time_initialized", "m_reference_time", "m_current_time"))
        p.prove("predicted to the local time of the measurement", eq(ev[4][2], lt_))
        SE.prove_same(p, "the update is what is predicted: ", ev[4][1], out)
        SE.prove_same(p, "the estimate is the prediction: ", T, ev[4][3])
    ctx.check("ImuUpdater::UpdateEKF", imu_setup(h, lambda I_: [var("t", "R")] + meas(I_)), post_u, contracts=C2)


# ------------------------------------------------------------------ fiducial markers
def fid_setup(h, args=lambda I_: []):
    def setup(I_):
        e = SE.inv_ekf(I_, None).set("m_use_first_estimate_jacobian", B(False))
        kc, kf = I_.sym("unsigned int", "kc"), I_.sym("unsigned int", "kf")
        u = I_.sym("FiducialUpdater", "u")
        C, F = e.f["m_state"].f["cam_states"], e.f["m_state"].f["fid_states"]
        for k, M in ((kc, C), (kf, F)):
            I_.assume(le(I(0), k)); I_.assume(lt(k, M.n))
        u = u.set("m_id", F.key(kf)).set("m_camera_id", C.key(kc)).set("m_is_fid_extrinsic", of(e, "fid_states", kf).f["is_extrinsic"]).set("m_is_cam_extrinsic", of(e, "cam_states", kc).f["is_extrinsic"])
        names = fid_rots(e, kc)
        I_.qmats = [(mmul(mtr(qmat(names[0])), mtr(qmat(names[1]))), qmul(qconj(names[0]), qconj(names[1])))]
        lv, ul = I_.alloc(e), I_.alloc(u)
        extra = args(I_)
        h.v = (e, lv, (kc, kf), u, ul, extra)
        return ul, [lv] + extra
    return setup


def fid_rots(e, kc): return of(e, "cam_states", kc).f["ang_c_to_b"], body(e).f["ang_b_to_l"]


def fid_pred(I_, e, ks):
    kc, kf = ks
    c, f, b = of(e, "cam_states", kc), of(e, "fid_states", kf), body(e)
    Rc, Rb = mtr(qmat(c.f["ang_c_to_b"])), mtr(qmat(b.f["ang_b_to_l"]))
    pos = mmul(Rc, msub(mmul(Rb, msub(f.f["pos_f_in_l"], b.f["pos_b_in_l"])), c.f["pos_c_in_b"]))
    ang = quat_rotvec(I_, qmul(qmul(qconj(c.f["ang_c_to_b"]), qconj(b.f["ang_b_to_l"])), f.f["ang_f_to_l"]))
    return pos, ang


def fid_jac(e, ks, cext, fext):
    kc, kf = ks
    c, f, b = of(e, "cam_states", kc), of(e, "fid_states", kf), body(e)
    Rc, Rb = mtr(qmat(c.f["ang_c_to_b"])), mtr(qmat(b.f["ang_b_to_l"]))
    Rl = mmul(Rc, Rb)
    d = msub(f.f["pos_f_in_l"], b.f["pos_b_in_l"])
    Jb, Jc, Jf = [mtr(qjac(q)) for q in (b.f["ang_b_to_l"], c.f["ang_c_to_b"], f.f["ang_f_to_l"])]
    ic, if_ = c.f["index"], f.f["index"]
    return blocks(6, e.f["m_state_size"], [
        (0, 0, mneg(Rl), TRUE), (0, 9, mprod(Rl, skew3(d), Jb), TRUE), (3, 9, mneg(mmul(Rl, Jb)), TRUE),
        (0, ic, mneg(Rc), cext), (0, add(ic, I(3)), mprod(Rc, skew3(msub(mmul(Rb, d), c.f["pos_c_in_b"])), Jc), cext), (3, add(ic, I(3)), mneg(mmul(Rc, Jc)), cext),
        (0, if_, Rl, fext), (3, add(if_, I(3)), mmul(Rl, Jf), fext)])


FID_CACHE = ("m_pos_c_in_b", "m_ang_c_to_b", "m_pos_f_in_l", "m_ang_f_to_l", "m_is_first_estimate", "m_fiducial_logger")


def P17(ctx):
    h = Box()
    QJ = {"QuaternionJacobian": c_qjac, **ROT}
    def post(I_, p):
        e, lv, ks, u, ul, _ = h.v
        pos, ang = fid_pred(I_, e, ks)
        p.prove("six entries", and_(eq(p.retv.r, I(6)), eq(p.retv.c, I(1))))
        p.prove_mat("predicted position: marker seen from the camera", mblk(p.retv, I(0), I(0), I(3), I(1)), pos)
        p.prove_mat("predicted orientation: rotation vector of marker to camera", mblk(p.retv, I(3), I(0), I(3), I(1)), ang)
        SE.prove_same(p, "prediction leaves the filter alone: ", p.load(lv), e)
        prove_upd_frame(p, ul, u, but=FID_CACHE)
    ctx.check("FiducialUpdater::PredictMeasurement", fid_setup(h), post, contracts=QJ)
    def post2(I_, p):
        e, lv, ks, u, ul, _ = h.v
        p.prove_mat("Jacobian is the derivative of the predicted pose; zero elsewhere", p.retv, fid_jac(e, ks, u.f["m_is_cam_extrinsic"], u.f["m_is_fid_extrinsic"]))
        SE.prove_same(p, "the Jacobian leaves the filter alone: ", p.load(lv), e)
        prove_upd_frame(p, ul, u, but=FID_CACHE)
    ctx.check("FiducialUpdater::GetMeasurementJacobian", fid_setup(h), post2, contracts=QJ)
    def c_pm(I_, this, args, f):
        e = I_.load(args[0])
        I_.events.append(("pm", e))
        pos, ang = fid_pred(I_, e, h.v[2])
        return vec(*(comps(pos) + comps(ang)))
    def c_jac(I_, this, args, f):
        e, u = I_.load(args[0]), I_.load(this)
        I_.events.append(("jac", e))
        return fid_jac(e, h.v[2], u.f["m_is_cam_extrinsic"], u.f["m_is_fid_extrinsic"])
    C = {**SE.LOGC, **ROT, "EKF::PredictModel": c_predict, "EKF::CalculateLocalTime": c_localtime, "Updater::KalmanUpdate": c_kalman,
         "FiducialUpdater::PredictMeasurement": c_pm, "FiducialUpdater::GetMeasurementJacobian": c_jac}
    def post3(I_, p):
        e, lv, ks, u, ul, (t, bl) = h.v
        b = p.load(bl)
        T = p.load(lv)
        ev = [x for x in I_.events if x[0] in ("predict", "kalman")]
        lt_ = ite(e.f["m_time_initialized"], sub(t, e.f["m_reference_time"]), R(0))
        p.prove("one prediction, then one update", B([x[0] for x in ev] == ["predict", "kalman"]))
        if [x[0] for x in ev] != ["predict", "kalman"]:
            return
        p.prove("predicted to the local time of the detection", eq(ev[0][2], lt_))
        SE.prove_same(p, "predicted from the estimate before: ", ev[0][1], e, but=("m_time_initialized", "m_reference_time", "m_current_time"))
        e2 = ev[0][3]
        _, ek, H, r, N, out = ev[1]
        p.prove_mat("the Jacobian is that of the predicted state", H, fid_jac(e2, ks, u.f["m_is_cam_extrinsic"], u.f["m_is_fid_extrinsic"]))
        pos, ang = fid_pred(I_, e2, ks)
        p.prove("six residuals", and_(eq(r.r, I(6)), eq(r.c, I(1))))
        p.prove_mat("position residual: measured minus predicted", mblk(r, I(0), I(0), I(3), I(1)), msub(b.f["pos_f_in_c"], pos))
        q = qmul(b.f["ang_f_to_c"], qconj(rotvec_quat(I_, ang)))
        p.prove_mat("orientation residual: rotation vector from the predicted to the measured orientation", mblk(r, I(3), I(0), I(3), I(1)), quat_rotvec(I_, q))
        dg = lambda v: mdense([[elem(v, i, 0) if i == j else R(0) for j in range(3)] for i in range(3)])
        p.prove_mat("the noise is the reported error of the detection, per axis", N, bdiag(dg(b.f["pos_error"]), dg(b.f["ang_error"])))
        SE.prove_same(p, "the estimate is that of the update: ", T, out)
        p.prove_mat("the covariance is that of the update", T.f["m_cov"], out.f["m_cov"])
        prove_upd_frame(p, ul, u, but=FID_CACHE)
    ctx.check("FiducialUpdater::UpdateEKF", fid_setup(h, lambda I_: [var("t", "R"), I_.alloc(I_.sym("BoardDetection", "det"))]), post3, contracts=C)
