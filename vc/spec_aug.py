"""Clone lookup and the sliding window of clones."""
from common import *
from spec import *
import spec_ekf as SE
from spec_gps import Box


def P20(ctx):
    h = Box()
    for mode in ("the camera's own clones", "the primary camera's clones", "shared clones"):
        def setup(I_, mode=mode):
            e = SE.inv_ekf(I_, None)
            M = e.f["m_state"].f["aug_states"]
            kk = I_.sym("unsigned int", "kk")
            I_.assume(lt(kk, M.n))
            cam, fr, t = I_.sym("unsigned int", "cam"), I_.sym("unsigned int", "frame"), var("t", "R")
            ty = e.f["m_augmenting_type"]
            if mode == "the camera's own clones":
                cam = M.key(kk)
                I_.assume(or_(eq(ty, I(SE.ENUM["ALL"])), and_(eq(ty, I(SE.ENUM["PRIMARY"])), eq(cam, e.f["m_primary_camera_id"]))))
            elif mode == "the primary camera's clones":
                e = e.set("m_primary_camera_id", M.key(kk)).set("m_augmenting_type", I(SE.ENUM["PRIMARY"]))
                I_.assume(not_(eq(cam, M.key(kk))))
            else:
                I_.assume(not_(or_(eq(ty, I(SE.ENUM["ALL"])), eq(ty, I(SE.ENUM["PRIMARY"])))))
                I_.assume(eq(M.key(kk), I(0)))
                M.known[I(0)] = kk
            I_.assume(lt(I(0), M.val(kk).n))
            I_.P.axioms["ekf.m_state.aug_states[][].time"] = lambda ts: [implies(and_(eq(a.args[1], b.args[1]), lt(a.args[2], b.args[2])), lt(a, b)) for a in ts for b in ts if a is not b]
            lv = I_.alloc(e)
            h.v = (e, lv, kk, cam, fr, t)
            return lv, [cam, fr, t]
        def post(I_, p, mode=mode):
            e, lv, kk, cam, fr, t = h.v
            T = p.load(lv)
            r = p.retv
            l = e.f["m_state"].f["aug_states"].val(kk)
            j, i = var("j!", "I"), var("i!", "I")
            inj = [le(I(0), j), lt(j, l.n)]
            SE.prove_same(p, "the filter is left alone: ", T, e)
            if mode == "the camera's own clones":
                only = mk("forall", (i, implies(and_(le(I(0), i), lt(i, l.n), eq(l.at(i).f["frame_id"], fr)), eq(i, j))), "B")
                x = l.at(j)
                for f in ("index", "alpha", "pos_b_in_l", "ang_b_to_l", "frame_id", "time"):
                    p.prove_eq(f"the clone of the frame is returned ({f})", r.f[f], x.f[f], inj + [eq(x.f["frame_id"], fr), only])
                return
            first, last, b = l.at(I(0)), l.at(sub(l.n, I(1))), e.f["m_state"].f["body_state"]
            def between(what, al, x, pos1, ang1, cond):
                p.prove(what + "place in the state", eq(r.f["index"], x.f["index"]), cond)
                p.prove(what + "fraction", eq(r.f["alpha"], al), cond)
                p.prove_mat(what + "position", r.f["pos_b_in_l"], madd(x.f["pos_b_in_l"], mscale(al, msub(pos1, x.f["pos_b_in_l"]))), cond)
                q = lib.quat_call(I_, None, "slerp", None, x.f["ang_b_to_l"], [al, ang1]) if not (isc(al) and cv(al) == 0) else x.f["ang_b_to_l"]
                for c in "wxyz":
                    p.prove(what + "orientation " + c, eq(getattr(r.f["ang_b_to_l"], c), getattr(q, c)), cond)
                p.prove(what + "time", eq(r.f["time"], t), cond)
            between("before the oldest clone: ", R(0), first, first.f["pos_b_in_l"], None, [lt(t, first.f["time"])])
            x, y = l.at(j), l.at(add(j, I(1)))
            al = div(sub(t, x.f["time"]), sub(y.f["time"], x.f["time"]))
            c = [le(I(0), j), lt(add(j, I(1)), l.n), le(x.f["time"], t), lt(t, y.f["time"])]
            between("between two clones: ", al, x, y.f["pos_b_in_l"], y.f["ang_b_to_l"], c)
            p.prove("between two clones: the fraction is in [0, 1)", and_(le(R(0), r.f["alpha"]), lt(r.f["alpha"], R(1))), c)
            now = e.f["m_current_time"]
            c = [le(last.f["time"], t), lt(last.f["time"], now)]
            al = div(sub(t, last.f["time"]), sub(now, last.f["time"]))
            between("after the newest clone: ", al, last, b.f["pos_b_in_l"], b.f["ang_b_to_l"], c)
            p.prove("after the newest clone: the fraction is in [0, 1]", and_(le(R(0), r.f["alpha"]), le(r.f["alpha"], R(1))), c + [le(t, now)])
            c = [le(last.f["time"], t), le(now, last.f["time"])]
            p.prove("at the newest clone: its place", eq(r.f["index"], last.f["index"]), c)
            p.prove("at the newest clone: its position", and_(*[eq(elem(r.f["pos_b_in_l"], z, 0), elem(last.f["pos_b_in_l"], z, 0)) for z in range(3)]), c)
            for z in "wxyz":
                p.prove("at the newest clone: its orientation", eq(getattr(r.f["ang_b_to_l"], z), getattr(last.f["ang_b_to_l"], z)), c)
        ctx.check("EKF::GetAugState", setup, post, label="EKF::GetAugState: " + mode)
