"""The Kalman measurement update, in covariance form and in square-root form."""
from common import *
from spec import *
from spec_matrix import c_qr


def c_state_plus(I_, this, args, f):
    """State += v: composition of every sub-state with its own entries of v (contract of P03); recorded for the postcondition"""
    v = lib.val(I_, args[1])
    I_.events.append(("state+=", args[0], v))
    return args[0]


def P08(ctx):
    for root in (False, True):
        def setup(I_, root=root):
            n, m = I_.sym("unsigned int", "n"), I_.sym("unsigned int", "m")
            I_.assume(lt(I(0), n)); I_.assume(lt(I(0), m))
            C = mvar("C" if root else "C~psd", n, n)
            H, r, N = mvar("H", m, n), mvar("r", m, I(1)), mvar("N~diag" if root else "N~psd", m, m)
            e = I_.sym("EKF", "ekf").set("m_use_root_covariance", B(root)).set("m_cov", C)
            lv = I_.alloc(e)
            u = I_.sym("Updater", "u")
            setup.v = (C, H, r, N, lv)
            return I_.alloc(u), [lv, I_.alloc(H), I_.alloc(r), I_.alloc(N)]
        def post(I_, p, root=root):
            C, H, r, N, lv = setup.v
            P = mmul(mtr(C), C) if root else C
            S = madd(mmul(mmul(H, P), mtr(H)), N)
            K = mmul(mmul(P, mtr(H)), minv(S))
            ev = [x for x in I_.events if x[0] == "state+="]
            p.prove("exactly one correction is applied to the filter state", B(len(ev) == 1 and ev[0][1].key() == lv.ext(("f", "m_state")).key() if ev and hasattr(ev[0][1], "key") else len(ev) == 1))
            if ev:
                p.prove_mat("the correction is gain times residual", ev[0][2], mmul(K, r))
            A = msub(mid(C.r), mmul(K, H))
            exp = madd(mmul(mmul(A, P), mtr(A)), mmul(mmul(K, N), mtr(K)))
            new = p.load(lv).f["m_cov"]
            p.prove("covariance keeps its size", and_(eq(new.r, C.r), eq(new.c, C.c)))
            p.prove_mat("new covariance is (I-KH)P(I-KH)'+KNK'" + (" for the root R with P = R'R" if root else ""), mmul(mtr(new), new) if root else new, exp)
            if not root:
                p.prove_mat("new covariance is symmetric", new, mtr(new))
                p.prove_mat("new covariance equals (I-KH)P for the optimal gain", new, mmul(A, P))
            else:
                p.P.record("new root is upper triangular", new.op == "mqr", "structure", time.time())
        ctx.check("Updater::KalmanUpdate", setup, post, contracts={"QR_r": c_qr, "operator+=": c_state_plus}, label="Updater::KalmanUpdate " + ("(root form)" if root else "(covariance form)"))
