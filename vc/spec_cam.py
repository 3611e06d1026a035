"""Camera frames: augmentation, trackers, markers; the tracks handed over to the filter."""
from common import *
from spec import *
import spec_ekf as SE
import lib
import loops
from spec_gps import Box, v3
from spec_sens import UPD, same, events
from spec_sim import SENSOR


KIND = enum_values("FiducialType", "src/trackers/fiducial_tracker.hpp")


def objects(I_, cls, name):
    """objects of a class, addressed by a number: distinct numbers are distinct objects"""
    return I_.alloc(Seq(I(1 << 40), lambda k: I_.sym(cls, name, (k,)), name, cls))


def at(objs, addr): return Ptr(objs.ext(("i", addr)))


def owned(I_, M, objs, name):
    """the map with pointers to the objects as values"""
    m = Map(M.n, M.key, lambda k: at(objs, app(name + ".addr", (k,), "I")), M.tag, M.vty, lambda: Opaque("nullptr"))
    return M.copyinfo(m)


def c_step(name):
    def c(I_, this, args, f):
        a = [lib.val(I_, x) for x in args]
        I_.events.append(("ekf", name, this, a))
        if name == "CalculateLocalTime":
            return app("localtime", a, "R")
        return None
    return c


STEP = {"EKF::" + n: c_step(n) for n in ("CalculateLocalTime", "PredictModel", "AugmentStateIfNeeded")}


def c_ev(kind):
    def c(I_, this, args, f):
        I_.events.append((kind, this, [I_.load(x) if isinstance(x, LV) else x for x in args], args))
        return None
    return c


def c_image(I_, this, args, f):
    """an image is drawn or converted: its second or only output is some image"""
    for x in args:
        if isinstance(x, LV) and isinstance(I_.load(x), Opaque) and x is args[1]:
            I_.put(x, Opaque("image"))
    return None


def P24(ctx):
    h = Box()

    def cam(I_, cls, trk, fid):
        I_.type_inv = {}
        ekf = I_.alloc(Opaque("the filter"))
        o = I_.sym(cls, "cam").set("m_ekf", Ptr(ekf))
        T, F = objects(I_, trk, "trk"), objects(I_, fid, "fid")
        o = o.set("m_trackers", owned(I_, o.f["m_trackers"], T, "trk")).set("m_fiducials", owned(I_, o.f["m_fiducials"], F, "fid"))
        h.cam, h.ekf, h.T, h.F = o, ekf, T, F
        h.lv = I_.alloc(o)
        return h.lv

    def setup_sim(I_):
        lv = cam(I_, "SimCamera", "SimFeatureTracker", "SimFiducialTracker")
        m = I_.sym("SimCameraMessage", "m")
        def msgs(field, cls, M, name):
            def elt(k):
                place = app(name + ".place", (k,), "I")      # a tracker of this camera
                I_.assume(and_(le(I(0), place), lt(place, M.n)))
                return I_.sym(cls, name, (k,)).set("tracker_id", M.key(place))
            s = Seq(m.f[field].n, lambda k: elt(k), name, cls)
            H = I_.alloc(s)
            return H, Seq(s.n, lambda k: at(H, k), name + ".ptr")
        h.MT, a = msgs("feature_track_messages", "SimFeatureTrackerMessage", h.cam.f["m_trackers"], "tm")
        h.MF, b = msgs("fiducial_track_messages", "SimFiducialTrackerMessage", h.cam.f["m_fiducials"], "fm")
        m = m.set("feature_track_messages", a).set("fiducial_track_messages", b)
        h.m = m
        return lv, [I_.alloc(m)]

    def filter_first(I_, p, t, frame):
        """time, prediction and clone come first, once each, on the camera's filter, before any tracker"""
        ev = [e for e in I_.events if e[0] in ("ekf", "loop", "tracker", "marker")]
        n = [e[1] for e in ev if e[0] == "ekf"]
        ok = n == ["CalculateLocalTime", "PredictModel", "AugmentStateIfNeeded"] and [e[0] for e in ev[:3]] == ["ekf"] * 3
        p.P.record("predicts once, then clones once, then the trackers", ok, "structure", time.time())
        if not ok:
            return None
        p.P.record("in its own filter", all(e[2].loc == h.ekf.loc for e in ev[:3]), "structure", time.time())
        p.prove("the frame's time", eq(ev[0][3][0], t))
        p.prove("moves the filter to the frame's time", eq(ev[1][3][0], app("localtime", [t], "R")))
        p.prove("the clone is the camera's", eq(ev[2][3][0], h.cam.f["m_id"]))
        p.prove("the clone is the frame's", eq(ev[2][3][1], frame))
        return ev[3:]

    def each(p, what, e, kind, n, wanted, check):
        """the loop event e: exactly one event of the kind for every element k < n that is wanted, none for the others"""
        _, k, m, paths, _ = e
        p.prove(what + ": every one is visited", eq(m, n))
        inr = [le(I(0), k), lt(k, m)]
        for c, es in paths:
            es = [x for x in es if x[0] in ("ekf", "loop", "tracker", "marker", "update")]
            if not es:
                p.prove(what + ": none is left out", not_(wanted(k)), inr + [c])
                continue
            ok = len(es) == 1 and es[0][0] == kind
            p.P.record(what + ": each is used once", ok, "structure", time.time())
            if ok:
                p.prove(what + ": only those wanted", wanted(k), inr + [c])
                check(k, es[0], inr + [c])

    def place(lv): return next((s[1] for s in lv.path if s[0] == "i"), None)

    def split(p, ev, nt, nf):
        """the loops over trackers and markers, in this order; an absent one had nothing to visit"""
        kinds = [{x[0] for c, es in e[3] for x in es} if e[0] == "loop" else {"?"} for e in ev]
        ok = all(x in ({"tracker"}, {"marker"}) for x in kinds) and len(ev) <= 2 and sorted(map(min, kinds), reverse=True) == [min(x) for x in kinds]
        p.P.record("feature trackers, then markers, nothing else", ok, "structure", time.time())
        if not ok:
            return None, None
        t = [e for e, x in zip(ev, kinds) if x == {"tracker"}]
        f = [e for e, x in zip(ev, kinds) if x == {"marker"}]
        if not t:
            p.prove("no feature tracker is left out", eq(nt, I(0)))
        if not f:
            p.prove("no marker is left out", eq(nf, I(0)))
        if len(t) > 1 or len(f) > 1:
            p.P.record("each tracker is visited once", False, "structure", time.time())
            return None, None
        return (t or [None])[0], (f or [None])[0]

    def post_sim(I_, p):
        m = h.m
        ev = filter_first(I_, p, m.f["time"], m.f["frame_id"])
        if ev is None:
            return
        t, f = split(p, ev, m.f["feature_track_messages"].n, m.f["fiducial_track_messages"].n)
        for e, kind, field, H, name, objs, msgs, wanted in (
                (t, "tracker", "feature_track_messages", h.T, "tm", "trk", h.MT, lambda k: lt(I(0), I_.load(h.MT).at(k).f["feature_tracks"].n)),
                (f, "marker", "fiducial_track_messages", h.F, "fm", "fid", h.MF, lambda k: TRUE)):
            if e is None:
                continue
            def check(k, x, c, H=H, name=name, objs=objs, msgs=msgs):
                _, this, vals, args = x
                ok = this.loc == H.loc and isinstance(args[1], LV) and args[1].loc == msgs.loc
                p.P.record(objs + ": one of its own trackers, with one of the frame's messages", ok, "structure", time.time())
                if not ok:
                    return
                p.prove(objs + ": the tracker the message is from", eq(place(this), app(objs + ".addr", [app(name + ".place", [k], "I")], "I")), c)
                p.prove(objs + ": the message itself", eq(place(args[1]), k), c)
                p.prove(objs + ": with the frame's time", eq(vals[0], m.f["time"]), c)
            each(p, field, e, kind, m.f[field].n, wanted, check)
    ctx.check("SimCamera::Callback", setup_sim, post_sim, contracts={**SE.LOGC, **STEP, "SimFeatureTracker::Callback": c_ev("tracker"), "SimFiducialTracker::Callback": c_ev("marker")})

    # a real camera
    def setup_cam(I_):
        lv = cam(I_, "Camera", "FeatureTracker", "FiducialTracker")
        m = I_.sym("CameraMessage", "m")
        h.m = m
        return lv, [I_.alloc(m)]

    def counter(I_): return next((k for k in I_.globals if k.endswith("GenerateFrameID::frame_id")), None)

    def post_cam(I_, p):
        m, o = h.m, h.cam
        nt, nf = o.f["m_trackers"].n, o.f["m_fiducials"].n
        none = and_(eq(nt, I(0)), eq(nf, I(0)))
        empty = var("image.empty", "B")
        used = [e for e in I_.events if e[0] in ("ekf", "loop", "tracker", "marker")]
        if not used:
            p.prove("a frame is left out only if it is empty or nothing tracks", or_(empty, none))
            return
        p.prove("an empty frame is not used", not_(empty))
        g = counter(I_)
        if g is None or "GenerateFrameID" not in g:
            p.P.record("frames are numbered by one counter", False, "structure", time.time())
            return
        clone = next((e for e in used if e[0] == "ekf" and e[1] == "AugmentStateIfNeeded"), None)
        if clone is None:
            p.P.record("a clone is made", False, "structure", time.time())
            return
        frame = clone[3][1]
        old, new = I_.static0[g], I_.load(I_.globals[g])
        p.prove("the frame's number is new, and counted", and_(le(old, frame), lt(frame, new)))
        ev = filter_first(I_, p, m.f["time"], frame)
        if ev is None:
            return
        t, f = split(p, ev, nt, nf)
        for e, kind, H, objs, n in ((t, "tracker", h.T, "trk", nt), (f, "marker", h.F, "fid", nf)):
            if e is None:
                continue
            def check(k, x, c, H=H, objs=objs):
                _, this, vals, args = x
                ok = this.loc == H.loc and isinstance(vals[2], Opaque) and vals[2].tag == "sym:m.image"
                p.P.record(objs + ": one of its own trackers, with the frame's image", ok, "structure", time.time())
                if ok:
                    p.prove(objs + ": each in its turn", eq(place(this), app(objs + ".addr", [k], "I")), c)
                    p.prove(objs + ": with the frame's time", eq(vals[0], m.f["time"]), c)
                    p.prove(objs + ": with the clone's frame number", eq(vals[1], frame), c)
            each(p, objs, e, kind, n, lambda k: TRUE, check)
    ctx.check("Camera::Callback", setup_cam, post_cam, contracts={**SE.LOGC, **STEP, "FeatureTracker::Track": c_ev("tracker"), "FiducialTracker::Track": c_ev("marker"),
              "lib:cvtColor": c_image, "lib:empty": lambda I_, ov, a, e: var("image.empty" if ov.tag == "sym:m.image" else "empty:" + ov.tag, "B")})

    # a tracker is kept under its own identifier
    def setup_add(cls, trk, fid, which):
        def s(I_):
            lv = cam(I_, cls, trk, fid)
            H = h.T if which == "m_trackers" else h.F
            a = I_.sym("unsigned int", "addr")
            h.a, h.H, h.which = a, H, which
            h.other = I_.sym("unsigned int", "other")
            return lv, [at(H, a)]
        return s

    def post_add(I_, p):
        o, H, which = h.cam, h.H, h.which
        id_ = I_.load(H.ext(("i", h.a))).f["m_id"]
        lv = p.this.ext(("f", which))
        for (kind, r, st, pc) in I_.explore(lambda: lib.map_index(I_, lv, id_)):
            if kind == "abort":
                continue
            sn = I_.snap()
            I_.restore(st)
            x = I_.load(r)
            ok = isinstance(x, Ptr) and x.lv.loc == H.loc
            p.P.record("the tracker is found under its identifier", ok, "structure", time.time())
            if ok:
                p.prove("the tracker found is the one added", eq(place(x.lv), h.a), pc)
            I_.restore(sn)
    for cls, trk, fid in (("Camera", "FeatureTracker", "FiducialTracker"), ("SimCamera", "SimFeatureTracker", "SimFiducialTracker")):
        ctx.check(cls + "::AddTracker", setup_add(cls, trk, fid, "m_trackers"), post_add)
        ctx.check(cls + "::AddFiducial", setup_add(cls, trk, fid, "m_fiducials"), post_add)

    # the simulated trackers' messages become one update each
    def setup_tcb(cls, msg):
        def s(I_):
            I_.type_inv = {}
            h.ekf = I_.alloc(Opaque("the filter"))
            h.o = I_.sym(cls, "s").set("m_ekf", Ptr(h.ekf))
            h.m, h.t = I_.sym(msg, "m"), var("t", "R")
            return I_.alloc(h.o), [h.t, I_.alloc(h.m)]
        return s

    def post_tcb(kind, updater, field, extra, wanted):
        def post(I_, p):
            ev = events(I_, "update")
            if not ev:
                p.prove("no update only without a detection", not_(wanted(h.m)))
                return
            p.P.record("one update", len(ev) == 1 and ev[0][1] == kind and ev[0][3].loc == h.ekf.loc, "structure", time.time())
            p.prove("an update only with a detection", wanted(h.m))
            _, _, u, _, a = ev[0]
            same(p, "by its own updater", u, h.o.f[updater])
            p.prove("at the message's time", eq(a[0], h.t))
            if isinstance(h.m.f[field], Seq):
                j = var("j!", "I")
                p.prove("with all of its tracks", eq(a[1].n, h.m.f[field].n))
                same(p, "with each of its tracks as it is", a[1].at(j).f["true_feature_position"], h.m.f[field].at(j).f["true_feature_position"], [le(I(0), j), lt(j, a[1].n)])
                p.prove("with the whole track", eq(a[1].at(j).f["track"].n, h.m.f[field].at(j).f["track"].n), [le(I(0), j), lt(j, a[1].n)])
                i = var("i!", "I")
                same(p, "with each of its points", a[1].at(j).f["track"].at(i), h.m.f[field].at(j).f["track"].at(i), [le(I(0), j), lt(j, a[1].n), le(I(0), i), lt(i, a[1].at(j).f["track"].n)])
            else:
                same(p, "with its detection", a[1], h.m.f[field])
            for x, f in zip(a[2:], extra):
                p.prove("with its " + f, eq(x, h.o.f[f]))
        return post
    ctx.check("SimFeatureTracker::Callback", setup_tcb("SimFeatureTracker", "SimFeatureTrackerMessage"), post_tcb("msckf", "m_msckf_updater", "feature_tracks", ["m_px_error"], lambda m: TRUE), contracts=dict(UPD, **SE.LOGC))
    ctx.check("SimFiducialTracker::Callback", setup_tcb("SimFiducialTracker", "SimFiducialTrackerMessage"), post_tcb("fid", "m_fiducial_updater", "board_detection", [], lambda m: m.f["is_board_visible"]), contracts=dict(UPD, **SE.LOGC))

    # simulated frames
    def setup_gen(I_):
        lv = cam(I_, "SimCamera", "SimFeatureTracker", "SimFiducialTracker")
        h.MT, h.MF = objects(I_, "SimFeatureTrackerMessage", "tm"), objects(I_, "SimFiducialTrackerMessage", "fm")
        h.truth = I_.alloc(I_.sym("TruthEngine", "truth"))
        o = h.cam.set("m_truth", Ptr(h.truth))
        I_.assume(lt(R(0), o.f["m_rate"]))
        I_.assume(lt(R(0), I_.load(h.truth).f["m_max_time"]))
        I_.assume(o.f["m_no_errors"])
        I_.put(lv, o)
        h.cam = o
        return lv, []

    def gen(objs, name):
        def c(I_, this, args, f):
            return at(getattr(h, objs), app(name, [place(this)] + [lib.val(I_, x) for x in args], "I"))
        return c

    def post_gen(I_, p):
        o = h.cam
        r, T = o.f["m_rate"], I_.load(h.truth).f["m_max_time"]
        n = p.retv.n
        p.prove("as many frames as fit into the duration", eq(n, floori(mul(T, r))))
        if n is I(0):
            return
        g = counter(I_)
        if g is None:
            p.P.record("frames are numbered by one counter", False, "structure", time.time())
            return
        old, new = I_.static0[g], I_.load(I_.globals[g])
        j, l, k = var("j!", "I"), var("l!", "I"), var("k!", "I")
        c = [le(I(0), j), lt(j, n)]
        m, m2 = p.retv.at(j), p.retv.at(l)
        t = div(toreal(j), r)
        p.prove("evenly spaced from zero", eq(m.f["time"], t), c)
        p.prove("the camera's identifier", eq(m.f["sensor_id"], o.f["m_id"]), c)
        p.prove("the kind of sensor", eq(m.f["sensor_type"], I(SENSOR["Camera"])), c)
        fr = m.f["frame_id"]
        p.prove("new frame numbers", and_(le(old, fr), lt(fr, new)), c)
        p.prove("in the order of time", lt(fr, m2.f["frame_id"]), c + [lt(j, l), lt(l, n)])
        for field, M, H, objs in (("feature_track_messages", o.f["m_trackers"], h.MT, "trk"), ("fiducial_track_messages", o.f["m_fiducials"], h.MF, "fid")):
            x = m.f[field]
            p.prove(field + ": one of each tracker", eq(x.n, M.n), c)
            if x.n is I(0):
                continue
            y = x.at(k)
            ok = isinstance(y, Ptr) and y.lv.loc == H.loc
            p.P.record(field + ": a message of its trackers", ok, "structure", time.time())
            if ok:
                a = place(y.lv)
                p.prove(field + ": each tracker's message of that time and frame", eq(a, app("gen." + objs, [app(objs + ".addr", [k], "I"), t, fr], "I")), c + [le(I(0), k), lt(k, x.n)])
    ctx.check("SimCamera::GenerateMessages", setup_gen, post_gen, contracts={**SE.LOGC, "SimFeatureTracker::GenerateMessage": gen("MT", "gen.trk"), "SimFiducialTracker::GenerateMessage": gen("MF", "gen.fid")})

    # a real marker: one update exactly when it is found with a valid pose
    def setup_trk(I_):
        I_.type_inv = {}
        h.e = SE.ekf(I_, None, "e")
        h.lv = I_.alloc(h.e)
        h.o = I_.sym("FiducialTracker", "s").set("m_ekf", Ptr(h.lv))
        cams = h.e.f["m_state"].f["cam_states"]
        h.kk = I_.sym("unsigned int", "own")
        I_.assume(lt(h.kk, cams.n))
        h.own = cams.val(h.kk)
        I_.assume(eq(h.o.f["m_camera_id"], cams.key(h.kk)))
        I_.assume(or_(*[eq(h.o.f["m_detector_type"], I(v)) for v in KIND.values()]))
        h.seen = {n: I_.sym("unsigned int", n) for n in ("markers", "corners")}
        h.valid, h.pose = var("pose.valid", "B"), {n: [var(f"{n}.{c}", "R") for c in "xyz"] for n in ("r_vec", "t_vec")}
        t, fr = var("t", "R"), I_.sym("unsigned int", "frame")
        h.t, h.frame = t, fr
        return I_.alloc(h.o), [t, fr, I_.alloc(Opaque("image in")), I_.alloc(Opaque("image out"))]

    def matrices(I_, what, args):
        """the camera matrix and the distortion given to the library are the tracker's own camera's"""
        k = h.own.f["intrinsics"]
        q = k.f
        cam_ = mdense([[div(q["f_x"], q["pixel_size"]), R(0), div(toreal(q["width"]), R(2))], [R(0), div(q["f_y"], q["pixel_size"]), div(toreal(q["height"]), R(2))], [R(0), R(0), R(1)]])
        dis = vec(q["k_1"], q["k_2"], q["p_1"], q["p_2"])
        ms = [lib.val(I_, a) for a in args]
        ms = [m for m in ms if isinstance(m, Mx)]
        ok = len(ms) >= 2 and dims(ms[0]) == (3, 3) and dims(ms[1]) == (4, 1)
        I_.P.record(what + ": with the camera's matrix and distortion", ok, "structure", time.time())
        if ok:
            for m, w, n in ((ms[0], cam_, "camera matrix"), (ms[1], dis, "distortion")):
                for i in range(m.r.args[0]):
                    for j in range(m.c.args[0]):
                        I_.P.prove(f"{what}: {n} of its own camera [{i}{j}]", eq(elem(m, i, j), elem(w, i, j)), I_.pc)

    def is_lv(args, k): return len(args) > k and isinstance(args[k], LV)

    def detect(I_, ov, args, e):
        if not (is_lv(args, 2) and is_lv(args, 3)):
            raise Unsupported("detectMarkers")
        I_.P.record("looks at the frame's image", lib.val(I_, args[0]).tag == "image in", "structure", time.time())
        I_.put(args[2], Seq(h.seen["markers"], lambda k: Opaque("corners"), "marker corners", "std::vector<cv::Point_<float>>"))
        I_.put(args[3], Seq(h.seen["markers"], lambda k: app("marker.id", [k], "I"), "marker ids", "int"))
        return None

    def interpolate(I_, ov, args, e):
        if not (is_lv(args, 4) and is_lv(args, 5)):
            raise Unsupported("interpolateCornersCharuco")
        matrices(I_, "corners", args[6:8])
        I_.P.prove("corners of the markers found", eq(lib.val(I_, args[1]).n, h.seen["markers"]), I_.pc)
        I_.put(args[4], Seq(h.seen["corners"], lambda k: Opaque("corner"), "corners", "cv::Point_<float>"))
        I_.put(args[5], Seq(h.seen["corners"], lambda k: app("corner.id", [k], "I"), "corner ids", "int"))
        return h.seen["corners"]

    def estimate(kind):
        def c(I_, ov, args, e):
            if not (is_lv(args, 5) and is_lv(args, 6)):
                raise Unsupported("pose estimation")
            I_.P.prove("the pose of this kind of board", eq(h.o.f["m_detector_type"], I(KIND[kind])), I_.pc)
            ids = lib.val(I_, args[1])
            I_.P.record("pose from the detected identifiers", isinstance(ids, Seq) and ids.tag == ("corner ids" if kind == "CHARUCO_BOARD" else "marker ids"), "structure", time.time())
            matrices(I_, "pose", args[3:5])
            for a, n in ((args[5], "r_vec"), (args[6], "t_vec")):
                I_.put(a, I_.load(a).set("x", h.pose[n][0]).set("y", h.pose[n][1]).set("z", h.pose[n][2]))
            return h.valid if kind == "CHARUCO_BOARD" else ite(h.valid, h.seen["markers"], I(0))
        return c

    def rodrigues(I_, this, args, f):
        v = lib.val(I_, args[0])
        q = [v.f[c] for c in "xyz"]
        return Quat(*[app("rodrigues." + n, q, "R") for n in "wxyz"])

    def post_trk(I_, p):
        o = h.o
        seen = and_(lt(I(0), h.seen["markers"]), or_(eq(o.f["m_detector_type"], I(KIND["ARUCO_BOARD"])), lt(I(0), h.seen["corners"])), h.valid)
        ev = events(I_, "update")
        if not ev:
            p.prove("a marker seen with a valid pose is used", not_(seen))
            return
        ok = len(ev) == 1 and ev[0][1] == "fid" and ev[0][3].loc == h.lv.loc
        p.P.record("one update of its own filter", ok, "structure", time.time())
        if not ok:
            return
        p.prove("only a marker seen with a valid pose", seen)
        _, _, u, _, a = ev[0]
        same(p, "by its own updater", u, o.f["m_fiducial_updater"])
        p.prove("at the frame's time", eq(a[0], h.t))
        b = a[1]
        p.prove("of the frame", eq(b.f["frame_id"], h.frame))
        for i in range(3):
            p.prove(f"position {i}", eq(elem(b.f["pos_f_in_c"], i, 0), h.pose["t_vec"][i]))
        for n, c in zip("wxyz", (b.f["ang_f_to_c"].w, b.f["ang_f_to_c"].x, b.f["ang_f_to_c"].y, b.f["ang_f_to_c"].z)):
            p.prove("orientation " + n, eq(c, app("rodrigues." + n, h.pose["r_vec"], "R")))
        same(p, "its own position error", b.f["pos_error"], o.f["m_pos_error"])
        same(p, "its own orientation error", b.f["ang_error"], o.f["m_ang_error"])
    ctx.check("FiducialTracker::Track", setup_trk, post_trk, contracts={**UPD, **SE.LOGC, "RodriguesToQuat": rodrigues, "lib:detectMarkers": detect,
              "lib:interpolateCornersCharuco": interpolate, "lib:estimatePoseCharucoBoard": estimate("CHARUCO_BOARD"), "lib:estimatePoseBoard": estimate("ARUCO_BOARD")})

    # simulated features: a track is handed over once, when its feature is gone or the track is full
    class Appended(loops.LoopInv):
        """The points of the frame are appended to the tracks of their features, for an arbitrary feature: with i
        points done its track is the one there was, followed by those of the i points that are its, in order; and no
        track is empty.  nth(c) is the point with c of the feature's points before it."""
        ranged = True

        def __init__(self):
            self.kappa = None

        def map_lv(self): return h.this.ext(("f", "m_feature_points_map"))

        def fits(self, I_, s, writes):
            big = {w.loc for w in writes if w.loc != h.this.loc}
            mine = [w for w in writes if w.loc == h.this.loc]
            if len(big) != 1 or not mine or any(w.path[:1] != (("f", "m_feature_points_map"),) for w in mine):
                return False
            self.cnt = LV(big.pop())
            return isinstance(I_.load(self.cnt), E) and I_.load(self.cnt).sort == "I"

        def begin(self, I_, s):
            self.O = I_.load(self.map_lv())
            self.kappa = h.kappa
            self.ex0, self.p0 = lib.map_pos(I_, self.O, self.kappa)
            self.old = self.O.val(self.p0) if self.ex0 else Seq(I(0), lambda k: I_.uninit("FeaturePoint"), "none", "FeaturePoint")
            self.i = var("i@append", "I")

        def mine(self, j): return eq(h.kp.at(j).f["class_id"], self.kappa)

        def count(self, n):
            q = var("q@append", "I")
            return loops.psum(n, q, ite(self.mine(q), I(1), I(0)))

        def nth(self, c): return app("nth@append", [c], "I")

        def point(self, j): return Obj("FeaturePoint", {"frame_id": h.frame, "frame_time": h.t, "key_point": h.kp.at(j)})

        def track(self, i):
            old = self.old
            n0 = old.n
            return Seq(add(n0, self.count(i)), lambda q: merge(lt(q, n0), old.at(q), self.point(self.nth(sub(q, n0)))), "track", "FeaturePoint")

        def havoc(self, I_):
            I_.assume(le(I(0), self.i))
            I_.assume(le(self.i, h.kp.n))
            I_.assume(le(I(0), self.count(self.i)))
            if h.__dict__.get("prover") is not I_.P:
                h.prover, h.W = I_.P, I_.sym("std::map<unsigned int, std::vector<FeaturePoint>>", "W")
                I_.P.axioms["W[].len"] = nonempty(lambda: h.W.n)
            W = h.W
            I_.assume(le(I(0), W.n))
            has = or_(B(self.ex0), lt(I(0), self.count(self.i)))
            if I_.branch(has):
                pw = app("place@append", (), "I")
                I_.assume(and_(le(I(0), pw), lt(pw, W.n), eq(W.key(pw), self.kappa)))
                t = self.track(self.i)
                M = Map(W.n, W.key, lambda k: merge(eq(k, pw), t, W.val(k)), W.tag, W.vty, W.default)
                M.known = {self.kappa: pw}
                self.pw = pw
            else:
                M = W
                q = var("q@w", "I")
                I_.assume(loops.forall_(q, implies(and_(le(I(0), q), lt(q, W.n)), not_(eq(W.key(q), self.kappa)))))
                self.pw = None
            I_.events.append(("appended", M))
            I_.store[self.cnt.loc] = self.i
            lv = self.map_lv()
            I_.store[lv.loc] = loops.setp(I_, I_.store[lv.loc], lv.path, M)
            self.lemma(I_)

        def lemma(self, I_):
            def ax(ts):       # its defining property, for every point there is a term for
                return [implies(self.mine(j), eq(self.nth(self.count(j)), j)) for j in (self.i,)]
            I_.P.axioms["nth@append"] = ax
            c = self.count(add(self.i, I(1)))
            I_.assume(eq(c, add(self.count(self.i), ite(self.mine(self.i), I(1), I(0)))))      # what a sum is

        def covers(self, I_, w): return w.loc == self.cnt.loc or w.loc == h.this.loc
        def written(self, I_): return [self.map_lv(), self.cnt]

        def look(self, I_, M):
            """the ways the feature can be found, with their conditions"""
            n0 = len(I_.pc)
            for (kind, r, st, pc) in I_.explore(lambda: lib.map_pos(I_, M, self.kappa)):
                if kind != "abort":
                    yield r, pc

        def shape(self, I_, i):
            M = I_.load(self.map_lv())
            yield "points counted", le(I(0), self.count(i)), []
            k, q = var("k@any", "I"), var("q@any", "I")
            yield "no track is empty", lt(I(0), M.val(k).n), [le(I(0), k), lt(k, M.n)]
            has = or_(B(self.ex0), lt(I(0), self.count(i)))
            for (ex, p), pc in self.look(I_, M):
                if not ex:
                    yield "a feature that was seen has a track", not_(has), pc
                    continue
                yield "a feature without a track was never seen", has, pc
                t, w = M.val(p), self.track(i)
                yield "its points", eq(t.n, w.n), pc
                for x, y, nm in pairs(t.at(q), w.at(q)):
                    yield "its points in order: " + nm, eq(x, y), pc + [le(I(0), q), lt(q, w.n)]

        def entry(self, I_):
            yield "count", eq(I_.load(self.cnt), I(0)), ()
            yield from self.shape(I_, I(0))

        def step(self, I_):
            yield "count", eq(I_.load(self.cnt), add(self.i, I(1))), ()
            yield from self.shape(I_, add(self.i, I(1)))

    def nonempty(n):
        def ax(ts):
            return [implies(and_(le(I(0), t.args[-1]), lt(t.args[-1], n())), lt(I(0), t)) for t in ts]
        return ax

    def pairs(a, b, nm=""):
        if isinstance(a, Obj):
            for f in a.f:
                yield from pairs(a.f[f], b.f[f], nm + "." + f)
        else:
            yield a, b, nm

    def setup_sft(I_):
        I_.type_inv = {}
        h.truth = I_.alloc(I_.sym("TruthEngine", "truth"))
        h.o = I_.sym("SimFeatureTracker", "s").set("m_truth", Ptr(h.truth))
        h.t, h.frame = var("t", "R"), I_.sym("unsigned int", "frame")
        I_.P.axioms["s.m_feature_points_map[].len"] = nonempty(lambda: h.o.f["m_feature_points_map"].n)
        h.kappa = I_.sym("unsigned int", "kappa")
        h.kp = I_.sym("std::vector<cv::KeyPoint>", "kp")
        I_.P.axioms["kp[].class_id"] = lambda ts: [le(I(0), t) for t in ts]
        h.this = I_.alloc(h.o)
        return h.this, [h.t, h.frame]

    def visible(I_, this, args, f):
        return h.kp

    def feature(I_, this, args, f):
        k = lib.val(I_, args[0])
        return Obj("cv::Point3_<double>", {c: app("feature." + c, [k], "R") for c in "xyz"})

    def handed_over(I_, p, W, tracks, left, frame, o):
        """tracks: those of W that end, once each, in order, if long enough; left: those that do not end"""
        def over(v): return or_(lt(v.at(sub(v.n, I(1))).f["frame_id"], frame), le(o.f["m_max_track_length"], v.n))
        def ended(v): return and_(lt(I(0), v.n), over(v))       # (no track is empty: proved of the loop)
        def goes_on(v): return and_(lt(I(0), v.n), not_(over(v)))
        def given(v): return and_(ended(v), le(o.f["m_min_track_length"], v.n))
        w = var("w!", "I")
        t, t2 = var("t!", "I"), var("t2!", "I")
        p.prove("as many tracks are handed over as end and are long enough", eq(tracks.n, loops.psum(W.n, w, ite(given(W.val(w)), I(1), I(0)))))
        p.prove("as many are kept as do not end", eq(left.n, loops.psum(W.n, w, ite(goes_on(W.val(w)), I(1), I(0)))))
        for what, n, term, wanted, same_ in (
                ("handed over", tracks.n, lambda t: tracks.at(t).f["track"].n, given, lambda t, q: tracks.at(t).f["track"]),
                ("kept", left.n, lambda t: left.key(t), goes_on, lambda t, q: left.val(t))):
            if n is I(0):
                continue
            src = {x for x in subterms(term(t)) if isinstance(x, E) and x.op == "app" and str(x.args[0]).startswith("sel") and x.args[1] is t}
            if len(src) != 1:
                raise Unsupported("which tracks are " + what)
            q = src.pop()
            c = [le(I(0), t), lt(t, n)]
            v = W.val(q)
            p.prove(what + ": one of the tracks", and_(le(I(0), q), lt(q, W.n)), c)
            p.prove(what + ": only those", wanted(v), c)
            p.prove(what + ": no track twice", lt(q, subst(q, {t: t2})), c + [lt(t, t2), lt(t2, n)])
            x = same_(t, q)
            r = var("r!", "I")
            p.prove(what + ": whole", eq(x.n, v.n), c)
            for a, b, nm in pairs(x.at(r), v.at(r)):
                p.prove(what + ": every point of it" + nm, eq(a, b), c + [le(I(0), r), lt(r, v.n)])
            if what == "kept":
                p.prove("kept: under its feature", eq(left.key(t), W.key(q)), c)

    def post_sft(I_, p):
        m = I_.load(p.retv.lv)
        o = h.o
        tracks, left = m.f["feature_tracks"], I_.load(p.this).f["m_feature_points_map"]
        p.prove("message time", eq(m.f["time"], h.t))
        p.prove("message of this tracker", eq(m.f["tracker_id"], o.f["m_id"]))
        p.prove("message of its camera", eq(m.f["sensor_id"], o.f["m_camera_id"]))
        handed_over(I_, p, next(e[1] for e in I_.events if e[0] == "appended"), tracks, left, h.frame, o)
        t = var("t!", "I")
        if tracks.n is not I(0):
            x = tracks.at(t)
            for k, c in enumerate("xyz"):
                p.prove("the feature's true position " + c, eq(elem(x.f["true_feature_position"], k, 0), app("feature." + c, [x.f["track"].at(I(0)).f["key_point"].f["class_id"]], "R")), [le(I(0), t), lt(t, tracks.n)])
    ctx.check("SimFeatureTracker::GenerateMessage", setup_sft, post_sft, contracts={**SE.LOGC, "SimFeatureTracker::GetVisibleKeypoints": visible, "TruthEngine::GetFeature": feature},
              loops={"SimFeatureTracker::GenerateMessage": [Appended()]})

    # real features
    class Matched(loops.LoopInv):
        """One matched pair of key points of the previous and this frame: the feature of the previous one (a new
        feature gets a number not used before and its point of the previous frame) gets the point of this frame, and
        nothing else changes.  No track is empty; features are numbered below the counter."""
        ranged = True

        def map_lv(self): return h.this.ext(("f", "m_feature_points_map"))
        def prev_lv(self): return h.this.ext(("f", "m_prev_key_points"))

        def fits(self, I_, s, writes):
            mine = {w.path[0][1] for w in writes if w.loc == h.this.loc and w.path}
            big = {w.loc for w in writes if w.loc != h.this.loc}
            if "m_feature_points_map" not in mine or not mine <= {"m_feature_points_map", "m_prev_key_points"}:
                return False
            cnt = [l for l in big if l >= 0 and isinstance(I_.store[l], E)]
            cur = [l for l in big if l >= 0 and isinstance(I_.store[l], Seq)]
            ids = [l for l in big if l < 0]
            if len(cnt) != 1 or len(cur) != 1 or len(ids) != 1 or len(big) != 3:
                return False
            self.cnt, self.cur, self.ids = LV(cnt[0]), LV(cur[0]), LV(ids[0])
            return True

        def begin(self, I_, s):
            self.c0, self.p0 = I_.load(self.cur), I_.load(self.prev_lv())
            self.i = var("i@match", "I")
            I_.assume(le(I(0), I_.load(self.ids)))      # the counter starts at zero (its initial value) and only counts up

        def havoc(self, I_):
            if h.__dict__.get("prover2") is not I_.P:
                h.prover2 = I_.P
                h.W2 = I_.sym("std::map<unsigned int, std::vector<FeaturePoint>>", "W")
                h.PC = {n: I_.sym("std::vector<cv::KeyPoint>", n) for n in ("prev@match", "curr@match")}
                h.next = var("next@match", "I")
                I_.P.axioms["W[].len"] = nonempty(lambda: h.W2.n)
                old = I_.P.axioms["W.key"]
                I_.P.axioms["W.key"] = lambda ts: old(ts) + [implies(and_(le(I(0), t.args[-1]), lt(t.args[-1], h.W2.n)), lt(t, h.next)) for t in ts]
                for n in h.PC:
                    I_.P.axioms[n + "[].class_id"] = lambda ts: [and_(le(I(-1), t), lt(t, h.next)) for t in ts]
            for f in (le(I(0), self.i), le(I(0), h.next), le(I(0), h.W2.n)):
                I_.assume(f)
            def seq(n, s0): return Seq(s0.n, h.PC[n].at, n, "cv::KeyPoint")
            self.P, self.C = seq("prev@match", self.p0), seq("curr@match", self.c0)
            for lv, v in ((self.map_lv(), h.W2), (self.prev_lv(), self.P), (self.cur, self.C), (self.cnt, self.i), (self.ids, h.next)):
                I_.store[lv.loc] = loops.setp(I_, I_.store[lv.loc], lv.path, v)
            I_.events = [e for e in I_.events if e[0] != "appended"] + [("appended", h.W2)]

        def covers(self, I_, w): return w.loc in (self.cnt.loc, self.cur.loc, self.ids.loc, h.this.loc)
        def written(self, I_): return [self.map_lv(), self.prev_lv(), self.cur, self.ids, self.cnt]

        def shape(self, I_):
            M, P, C, nxt = I_.load(self.map_lv()), I_.load(self.prev_lv()), I_.load(self.cur), I_.load(self.ids)
            k = var("k@any", "I")
            yield "no track is empty", lt(I(0), M.val(k).n), [le(I(0), k), lt(k, M.n)]
            yield "tracks are of numbered features", lt(M.key(k), nxt), [le(I(0), k), lt(k, M.n)]
            yield "features counted", le(I(0), nxt), []
            yield "as many key points of the last frame", eq(P.n, self.p0.n), []
            yield "as many key points of this frame", eq(C.n, self.c0.n), []
            for nm, s in (("last", P), ("this", C)):
                yield f"key points of the {nm} frame are of numbered features", and_(le(I(-1), s.at(k).f["class_id"]), lt(s.at(k).f["class_id"], nxt)), [le(I(0), k), lt(k, s.n)]

        def entry(self, I_):
            yield "count", eq(I_.load(self.cnt), I(0)), ()
            yield from self.shape(I_)

        def step(self, I_):
            yield "count", eq(I_.load(self.cnt), add(self.i, I(1))), ()
            yield from self.shape(I_)
            M, P, C = I_.load(self.map_lv()), I_.load(self.prev_lv()), I_.load(self.cur)
            m = h.matches.at(self.i)
            q, t = m.f["queryIdx"], m.f["trainIdx"]
            c0, c = self.P.at(q).f["class_id"], C.at(t).f["class_id"]
            new = eq(c0, I(-1))
            yield "a known feature keeps its number", eq(c, c0), [not_(new)]
            yield "a new feature gets a new number", le(h.next, c), [new]
            yield "both points have the feature's number", eq(P.at(q).f["class_id"], c), []
            k, j = var("k@any", "I"), var("j@any", "I")
            for nm, a, b, x in (("last", P, self.P, q), ("this", C, self.C, t)):
                for u, v, f in pairs(a.at(k), b.at(k)):
                    yield f"other key points of the {nm} frame are left alone" + f, eq(u, v), [not_(eq(k, x))]
            for (ex, p), pc in self.look(I_, M, c):
                if not ex:
                    yield "the feature has a track", FALSE, pc
                    continue
                v = M.val(p)
                for (ex0, w), pc0 in self.look(I_, h.W2, c):
                    old = h.W2.val(w) if ex0 else Seq(I(0), lambda k: I_.uninit("FeaturePoint"), "none", "FeaturePoint")
                    a = list(pc) + list(pc0)
                    n1 = add(old.n, ite(new, I(1), I(0)))
                    yield "its track gets the point, a new one's the two", eq(v.n, add(n1, I(1))), a
                    for x, y, f in pairs(v.at(j), old.at(j)):
                        yield "its earlier points stay" + f, eq(x, y), a + [le(I(0), j), lt(j, old.n)]
                    for x, y, f in pairs(v.at(old.n), Obj("FeaturePoint", {"frame_id": h.o.f["m_prev_frame_id"], "frame_time": h.o.f["m_prev_frame_time"], "key_point": P.at(q)})):
                        yield "a new feature's first point is the one of the last frame" + f, eq(x, y), a + [new]
                    for x, y, f in pairs(v.at(n1), Obj("FeaturePoint", {"frame_id": h.frame, "frame_time": h.e.f["m_current_time"], "key_point": C.at(t)})):
                        yield "the point added last is the one of this frame" + f, eq(x, y), a
            for (ex, p), pc in self.look(I_, M, h.kappa):
                for (ex0, w), pc0 in self.look(I_, h.W2, h.kappa):
                    a = list(pc) + list(pc0) + [not_(eq(h.kappa, c))]
                    if ex != ex0:
                        yield "no other feature gains or loses a track", FALSE, a
                    elif ex:
                        yield "no other track changes", eq(M.val(p).n, h.W2.val(w).n), a
                        for x, y, f in pairs(M.val(p).at(j), h.W2.val(w).at(j)):
                            yield "no point of another track changes" + f, eq(x, y), a + [le(I(0), j), lt(j, M.val(p).n)]

        def look(self, I_, M, key):
            for (kind, r, st, pc) in I_.explore(lambda: lib.map_pos(I_, M, key)):
                if kind != "abort":
                    yield r, pc

    def setup_ft(I_):
        I_.type_inv = {}
        h.e = SE.ekf(I_, None, "e")
        h.elv = I_.alloc(h.e)
        h.o = I_.sym("FeatureTracker", "s").set("m_ekf", Ptr(h.elv))
        h.t, h.frame = var("t", "R"), I_.sym("unsigned int", "frame")
        h.kappa = I_.sym("unsigned int", "kappa")
        M = h.o.f["m_feature_points_map"]
        I_.P.axioms["s.m_feature_points_map[].len"] = nonempty(lambda: M.n)
        old = I_.P.axioms["s.m_feature_points_map.key"]
        def given():        # the number of features so far: the counter's value at the start
            x = [v for v in getattr(I_, "static0", {}).values() if isinstance(v, E) and v.sort == "I"]
            return x[0] if len(x) == 1 else None
        def below(ts): return [lt(t, given()) for t in ts] if given() is not None else []
        I_.P.axioms["s.m_feature_points_map.key"] = lambda ts: old(ts) + [implies(and_(le(I(0), t.args[-1]), lt(t.args[-1], M.n)), b) for t, b in zip(ts, below(ts))]
        I_.P.axioms["s.m_prev_key_points[].class_id"] = lambda ts: [le(I(-1), t) for t in ts] + below(ts)
        I_.P.axioms["described[].class_id"] = lambda ts: [eq(t, I(-1)) for t in ts]
        h.this = I_.alloc(h.o)
        return h.this, [h.t, h.frame, I_.alloc(Opaque("image in")), I_.alloc(Opaque("image out"))]

    def out(k, t, name):
        def c(I_, this, args, f):
            v = I_.sym(t, name)
            if name == "matches":
                h.matches = v
                n = I_.load(args[1]).n
                pn = I_.load(this).f["m_prev_key_points"].n
                I_.P.axioms["matches[].queryIdx"] = lambda ts: [and_(le(I(0), t), lt(t, pn)) for t in ts]
                I_.P.axioms["matches[].trainIdx"] = lambda ts: [and_(le(I(0), t), lt(t, n)) for t in ts]
            I_.put(args[k], v)
            return None
        return c

    def lib_out(k, v):
        def c(I_, ov, args, e):
            I_.put(args[k], v(I_))
            return None
        return c
    CV = {"lib:resize": lib_out(1, lambda I_: Opaque("image small")), "lib:compute": lambda I_, ov, a, e: [I_.put(a[1], I_.sym("std::vector<cv::KeyPoint>", "described")), I_.put(a[2], Opaque("descriptors"))] and None,
          "lib:detect": lib_out(1, lambda I_: I_.sym("std::vector<cv::KeyPoint>", "detected")), "lib:knnMatch": lambda *a: None, "lib:convertTo": lambda *a: None}

    def grid(I_, this, args, f): return I_.sym("std::vector<cv::KeyPoint>", "grid")

    def post_ft(I_, p):
        o, now = h.o, I_.load(p.this)
        p.prove("this frame is the last one from now on", eq(now.f["m_prev_frame_id"], h.frame))
        p.prove("with the filter's time", eq(now.f["m_prev_frame_time"], h.e.f["m_current_time"]))
        W = next((e[1] for e in I_.events if e[0] == "appended"), None)
        k = var("k!", "I")
        for a, b, nm in pairs(now.f["m_prev_key_points"].at(k), (h.PC["curr@match"] if W else I_.sym("std::vector<cv::KeyPoint>", "described")).at(k)):
            p.prove("with its key points" + nm, eq(a, b), [le(I(0), k), lt(k, now.f["m_prev_key_points"].n)])
        ev = events(I_, "update")
        left = now.f["m_feature_points_map"]
        if W is None:
            p.P.record("no match, no update", not ev, "structure", time.time())
            p.prove("no match, no track lost", eq(left.n, o.f["m_feature_points_map"].n))
            return
        ok = len(ev) <= 1 and all(e[1] == "msckf" and e[3].loc == h.elv.loc for e in ev)
        p.P.record("at most one update, of its own filter", ok, "structure", time.time())
        if not ok:
            return
        none = Seq(I(0), lambda t: I_.uninit("FeatureTrack"), "none", "FeatureTrack")
        if ev:
            _, _, u, _, a = ev[0]
            same(p, "by its own updater", u, o.f["m_msckf_updater"])
            p.prove("at the frame's time", eq(a[0], h.t))
            p.prove("with its pixel error", eq(a[2], o.f["m_px_error"]))
            p.prove("an update has tracks", lt(I(0), a[1].n))
        handed_over(I_, p, W, a[1] if ev else none, left, h.frame, o)
    ctx.check("FeatureTracker::Track", setup_ft, post_ft, contracts={**UPD, **SE.LOGC, "FeatureTracker::GridFeatures": grid, "FeatureTracker::RatioTest": lambda *a: None,
              "FeatureTracker::SymmetryTest": out(2, "std::vector<cv::DMatch>", "symmetric"), "FeatureTracker::RANSAC": out(2, "std::vector<cv::DMatch>", "consistent"),
              "FeatureTracker::DistanceTest": out(2, "std::vector<cv::DMatch>", "matches"), **CV}, loops={"FeatureTracker::Track": [Matched()]})
