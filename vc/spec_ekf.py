"""Contracts of the filter: layout, registration, cloning, prediction."""
from common import *
from spec import *
from spec_matrix import *

NOISE = {"imu_states": None, "gps_states": ["pos_stability"], "cam_states": ["pos_stability", "ang_stability"], "fid_states": ["pos_stability", "ang_stability"]}


def indexed(S):
    """the state S with every index field set to the documented layout (the representation invariant)"""
    L = Layout(S)
    out = {"body_state": S.f["body_state"].set("index", I(0))}
    for name in Layout.ORDER:
        m = S.f[name]
        if name == "aug_states":
            def val(k, m=m, name=name):
                s = m.val(k)
                return Seq(s.n, lambda j: s.at(j).set("index", add(L.index(name, k), mul(I(6), j))), s.tag, s.ety)
        else:
            def val(k, m=m, name=name):
                o = m.val(k).set("index", L.index(name, k))
                if name == "imu_states":
                    e, i = o.f["is_extrinsic"], o.f["is_intrinsic"]
                    at = L.index(name, k)
                    o = o.set("index_extrinsic", ite(e, at, o.f["index_extrinsic"]))
                    o = o.set("index_intrinsic", ite(i, add(at, ite(e, I(6), I(0))), o.f["index_intrinsic"]))
                return o
        out[name] = m.copyinfo(Map(m.n, m.key, val, m.tag, m.vty, m.default))
        if hasattr(m, "inserted"):
            out[name].inserted = m.inserted
    return S.__class__(S.cls, {**S.f, **out})


def proc_slots(name, o):
    """(offset, stability) of the diagonal process noise blocks of one sub-state, with guards"""
    if name == "imu_states":
        e, i = o.f["is_extrinsic"], o.f["is_intrinsic"]
        ii = ite(e, I(6), I(0))
        return [(I(0), "pos_stability", e), (I(3), "ang_stability", e), (ii, "acc_bias_stability", i), (add(ii, I(3)), "omg_bias_stability", i)]
    g = o.f["is_extrinsic"]
    return [(I(3 * x), f, g) for x, f in enumerate(NOISE[name])]


STARTS = {"imu_states": "m_imu_state_start", "gps_states": "m_gps_state_start", "cam_states": "m_cam_state_start", "fid_states": "m_fid_state_start", "aug_states": "m_aug_state_start"}


def ekf(I_, root=None, name="ekf"):
    I_.type_inv = TYPE_INV
    e = I_.sym("EKF", name)
    S = e.f["m_state"]
    n = Layout(S).size()
    e = e.set("m_state_size", n)
    for k, f in (("imu_states", "m_imu_state_size"), ("gps_states", "m_gps_state_size"), ("cam_states", "m_cam_state_size"), ("fid_states", "m_fid_state_size"), ("aug_states", "m_aug_state_size")):
        e = e.set(f, Layout(S).total(k))
    e = e.set("m_body_process_noise", mvar("bodyQ", I(18), I(1)))
    if root is not None:
        e = e.set("m_use_root_covariance", B(root))
    e = e.set("m_cov", mvar("cov", n, n))
    return e


def refresh(ctx):
    for root in (False, True):
        def setup(I_, root=root):
            e = ekf(I_, root)
            lv = I_.alloc(e)
            setup.v = (e, lv)
            return lv, []
        def post(I_, p, root=root):
            e, lv = setup.v
            S = e.f["m_state"]
            T = p.load(lv)
            L = Layout(S)
            k, j = var("k!", "I"), var("j!", "I")
            X = indexed(S)
            for name in Layout.ORDER:
                p.prove(f"{name} start", eq(T.f[STARTS[name]], L.start(name)))
                m, x = T.f["m_state"].f[name], X.f[name]
                rng = [le(I(0), k), lt(k, S.f[name].n)]
                p.prove(f"{name}: same number of entries", eq(m.n, S.f[name].n))
                if name == "aug_states":
                    r2 = rng + [le(I(0), j), lt(j, S.f[name].val(k).n)]
                    p.prove_eq(f"{name}[k][j]: index is its place in the layout, nothing else changes", m.val(k).at(j), x.val(k).at(j), r2)
                else:
                    p.prove_eq(f"{name}[k]: index is its place in the layout, nothing else changes", m.val(k), x.val(k), rng)
            p.prove_eq("body state: nothing but the index changes", T.f["m_state"].f["body_state"], X.f["body_state"])
            for f in ("m_state_size", "m_cov", "m_current_time"):
                p.prove_eq(f"{f} untouched", T.f[f], e.f[f])
            Q = T.f["m_process_noise"]
            n = L.size()
            p.prove("process noise is square of the state size", and_(eq(Q.r, n), eq(Q.c, n)))
            def sq(x): return fn("sqrt", x) if root else x
            for c in range(18):
                p.prove(f"body process noise entry {c}", eq(elem(Q, c, c), sq(elem(e.f["m_body_process_noise"], c, 0))))
            for name in Layout.ORDER[:-1]:
                o = S.f[name].val(k)
                rng = [le(I(0), k), lt(k, S.f[name].n)]
                for off, f, g in proc_slots(name, o):
                    for c in range(3):
                        at = add(add(L.index(name, k), off), I(c))
                        p.prove(f"process noise of {name}[k].{f} sits at its own entries", eq(elem(Q, at, at), sq(o.f[f])), rng + [g])
        ctx.check("EKF::RefreshIndices", setup, post, label="EKF::RefreshIndices " + ("(root form)" if root else "(covariance form)"))


def c_refresh(I_, this, args, f):
    """contract of RefreshIndices: every index is its place in the layout; diagonal process noise of the state's size"""
    e = I_.load(this)
    S = e.f["m_state"]
    L = Layout(S)
    n = L.size()
    I_.side.append(("the size counter covers every sub-state when indices are refreshed", eq(e.f["m_state_size"], n), list(I_.pc)))
    e = e.set("m_state", indexed(S))
    for name in Layout.ORDER:
        e = e.set(STARTS[name], L.start(name))
    I_.put(this, e.set("m_process_noise", mvar(f"procnoise{len(I_.events)}", n, n)))
    I_.events.append(("refresh",))
    return None


MAPS = {"imu": ("imu_states", "ImuState", "EKF::RegisterIMU", "m_imu_state_size"), "gps": ("gps_states", "GpsState", "EKF::RegisterGPS", "m_gps_state_size"),
        "cam": ("cam_states", "CamState", "EKF::RegisterCamera", "m_cam_state_size"), "fid": ("fid_states", "FidState", "EKF::RegisterFiducial", "m_fid_state_size")}
SIZES = {"imu_states": "m_imu_state_size", "gps_states": "m_gps_state_size", "cam_states": "m_cam_state_size", "fid_states": "m_fid_state_size", "aug_states": "m_aug_state_size"}


def inv_ekf(I_, root, name="ekf"):
    """a filter that satisfies the representation invariant"""
    e = ekf(I_, root, name)
    e = e.set("m_state", indexed(e.f["m_state"]))
    L = Layout(e.f["m_state"])
    for x in Layout.ORDER:
        e = e.set(STARTS[x], L.start(x))
    return e.set("m_process_noise", mvar("procnoise", e.f["m_state_size"], e.f["m_state_size"]))


def prove_inv(p, T, what=""):
    """the representation invariant of the filter holds for T"""
    S = T.f["m_state"]
    L = Layout(S)
    n = L.size()
    p.prove(what + "size counter is the size of the stacked state", eq(T.f["m_state_size"], n))
    for x in Layout.ORDER:
        p.prove(what + f"size counter of {x}", eq(T.f[SIZES[x]], L.total(x)))
        p.prove(what + f"start of {x}", eq(T.f[STARTS[x]], L.start(x)))
    C = T.f["m_cov"]
    p.prove(what + "covariance is square of the state size", and_(eq(C.r, n), eq(C.c, n)))
    Q = T.f["m_process_noise"]
    p.prove(what + "process noise is square of the state size", and_(eq(Q.r, n), eq(Q.c, n)))
    k, j = var("k!", "I"), var("j!", "I")
    X = indexed(S)
    p.prove(what + "body index is zero", eq(S.f["body_state"].f["index"], I(0)))
    for name in Layout.ORDER:
        m, x = S.f[name], X.f[name]
        rng = [le(I(0), k), lt(k, m.n)]
        if name == "aug_states":
            p.prove(what + f"{name}[k][j] index is its place in the layout", eq(m.val(k).at(j).f["index"], x.val(k).at(j).f["index"]), rng + [le(I(0), j), lt(j, m.val(k).n)])
        else:
            p.prove(what + f"{name}[k] index is its place in the layout", eq(m.val(k).f["index"], x.val(k).f["index"]), rng)
            if name == "imu_states":
                for f in ("index_extrinsic", "index_intrinsic"):
                    g = m.val(k).f["is_extrinsic" if "ext" in f else "is_intrinsic"]
                    p.prove(what + f"{name}[k] {f} is its place in the layout", eq(m.val(k).f[f], x.val(k).f[f]), rng + [g])


def prove_same_state(p, what, S1, S0, drop=()):
    k, j = var("k!", "I"), var("j!", "I")
    p.prove_eq(what + "body", S1.f["body_state"], S0.f["body_state"])
    for name in Layout.ORDER:
        a, b = S1.f[name], S0.f[name]
        p.prove(what + f"number of {name}", eq(a.n, b.n))
        rng = [le(I(0), k), lt(k, b.n)]
        x, y = a.val(k), b.val(k)
        p.prove(what + f"keys of {name}", eq(a.key(k), b.key(k)), rng)
        if name == "aug_states":
            p.prove(what + f"lengths of {name}", eq(x.n, y.n), rng)
            rng = rng + [le(I(0), j), lt(j, y.n)]
            x, y = x.at(j), y.at(j)
        for f in x.f:
            if f not in drop:
                p.prove_eq(what + f"{name}.{f}", x.f[f], y.f[f], rng)


def prove_same(p, what, T, e, but=()):
    if "m_state" not in but:
        prove_same_state(p, what, T.f["m_state"], e.f["m_state"])
    for f in e.f:
        if f == "m_state" or f in but or T.f[f] is e.f[f]:
            continue
        if isinstance(e.f[f], (Opaque, Map, Seq)):
            continue
        p.prove_eq(what + f, T.f[f], e.f[f])


def frame(p, a, b, fields, what="nothing else changes: "):
    for f in fields:
        if isinstance(a.f.get(f), Opaque):
            continue
        p.prove_eq(what + f, a.f[f], b.f[f])


OTHER = ["m_current_time", "m_body_process_noise", "m_is_gravity_initialized", "m_is_zero_acceleration", "m_is_lla_initialized", "m_time_initialized", "m_reference_time", "m_augmenting_type", "m_max_track_length", "m_use_root_covariance", "m_augmenting_prev_time"]
CAMF = ["m_max_frame_period", "m_min_aug_period", "m_max_track_duration", "m_primary_camera_id"]


def register(ctx, layout=True, content=True):
    for kind, (mname, cls, fname, szf) in MAPS.items():
        for root in (False, True):
            def setup(I_, root=root, kind=kind, cls=cls):
                e = inv_ekf(I_, root)
                o = I_.sym(cls, "new")
                o = TYPE_INV[cls](o)
                C = mvar("newcov", I(3), I(3)) if kind == "gps" else mvar("newcov", var("cr", "I"), var("cc", "I"))
                I_.assume(le(o.f["size"], C.r)); I_.assume(le(o.f["size"], C.c))
                key = o.f["id"] if kind == "fid" else I_.sym("unsigned int", "id")
                if kind == "fid":
                    I_.assume(le(I(0), key))
                if kind == "cam":
                    I_.assume(lt(R(0), o.f["rate"]))
                lv = I_.alloc(e)
                setup.v = (e, lv, o, C, key)
                return lv, ([] if kind == "fid" else [key]) + [I_.alloc(o), I_.alloc(C)]
            def lemmas(I_, p, mname=mname):
                e, lv, o, C, key = setup.v
                T = p.load(lv)
                m = T.f["m_state"].f[mname]
                ins = getattr(m, "inserted", None)
                setup.ins = ins
                if not ins:
                    return
                r = ins[1]
                L0, L1 = Layout(e.f["m_state"]), Layout(T.f["m_state"])
                wn = L0.width(mname, o)
                def F(t): return ite(le(t, r), L0.total(mname, t), add(L0.total(mname, sub(t, I(1))), wn))
                setup.ok = p.P.sum_lemma("widths after insertion", L1.k, L1.width(mname, m.val(L1.k)), F, [le(I(0), r)])
            def post(I_, p, root=root, kind=kind, mname=mname, szf=szf):
                e, lv, o, C, key = setup.v
                T = p.load(lv)
                S0, S1 = e.f["m_state"], T.f["m_state"]
                if setup.ins is None:
                    if not content:
                        prove_inv(p, T)
                        return
                    p.prove("only a known identifier is refused", app("has:" + S0.f[mname].key(var("probe!k", "I")).args[0], (key,), "B"))
                    prove_same(p, "a known identifier changes nothing: ", T, e)
                    return
                b, r, kt, v = setup.ins
                if layout:
                    prove_inv(p, T)
                if not content:
                    return
                p.prove("the new sensor is stored under its identifier", eq(kt, key))
                k, j = var("k!", "I"), var("j!", "I")
                p.prove("exactly one sensor is added", eq(S1.f[mname].n, add(S0.f[mname].n, I(1))))
                got = S1.f[mname].val(r)
                drop = ("index", "index_extrinsic", "index_intrinsic")
                for f in got.f:
                    if f not in drop:
                        p.prove_eq(f"the new sensor's {f} is as given", got.f[f], o.f[f])
                for name in Layout.ORDER:
                    if name == "aug_states":
                        x, y = S1.f[name].val(k).at(j), S0.f[name].val(k).at(j)
                        rng = [le(I(0), k), lt(k, S0.f[name].n), le(I(0), j), lt(j, S0.f[name].val(k).n)]
                        p.prove(f"{name}: same clones", and_(eq(S1.f[name].n, S0.f[name].n), eq(S1.f[name].val(k).n, S0.f[name].val(k).n)))
                    else:
                        kk = ite(lt(k, r), k, add(k, I(1))) if name == mname else k
                        x, y = S1.f[name].val(kk), S0.f[name].val(k)
                        rng = [le(I(0), k), lt(k, S0.f[name].n)]
                    for f in x.f:
                        if f not in drop:
                            p.prove_eq(f"existing {name} keep {f}", x.f[f], y.f[f], rng)
                for f in S0.f["body_state"].f:
                    p.prove_eq(f"body keeps {f}", S1.f["body_state"].f[f], S0.f["body_state"].f[f])
                w = Layout(S0).width(mname, o)
                at = add(Layout(S0).start(mname), Layout(S0).total(mname, r))
                blk = mblk(C, I(0), I(0), w, w)
                if root:
                    blk = mmk("mcw", ("sqrt", blk), w, w)
                new = T.f["m_cov"]
                ins = [x for x in I_.events if x[0] == "insert"]
                nm = "covariance: new block at the new sensor's own place, zero cross terms, all others shifted unchanged"
                if new is e.f["m_cov"]:
                    p.prove("covariance unchanged when nothing of the sensor is estimated", eq(w, I(0)))
                elif len(ins) == 1 and ins[0][5] is new and ins[0][2] is e.f["m_cov"]:
                    p.prove(nm + " (position)", and_(eq(ins[0][3], at), eq(ins[0][4], at)))
                    p.prove_mat(nm + " (block)", ins[0][1], blk)
                else:
                    p.prove_mat(nm, new, inserted(blk, e.f["m_cov"], at, at))
                frame(p, T, e, OTHER + ([] if kind == "cam" else CAMF) + [x for x in SIZES.values() if x != szf])
                if kind == "cam":
                    per = div(R(1), o.f["rate"])
                    mx = ite(lt(e.f["m_max_frame_period"], per), per, e.f["m_max_frame_period"])
                    p.prove("longest frame period", eq(T.f["m_max_frame_period"], mx))
                    mn = ite(lt(per, e.f["m_min_aug_period"]), per, e.f["m_min_aug_period"])
                    p.prove("shortest augmentation period", eq(T.f["m_min_aug_period"], mn))
                    p.prove("first camera becomes the primary one", eq(T.f["m_primary_camera_id"], ite(eq(e.f["m_primary_camera_id"], I(0)), key, e.f["m_primary_camera_id"])))
            ctx.check(fname, setup, post, lemmas=lemmas, contracts={"EKF::RefreshIndices": c_refresh, "InsertInMatrix": c_insert},
                      label=f"{fname} " + ("(root form)" if root else "(covariance form)"))


def c_log(I_, this, args, f):
    """writing a log line does not touch the filter"""
    I_.events.append(("log", this, [lib.val(I_, a) for a in args]))
    return None


LOGC = {"DataLogger::Log": c_log, "DataLogger::RateLimitedLog": c_log, "DebugLogger::Log": c_log}
AUGC = {**LOGC, "EKF::RefreshIndices": c_refresh, "EKF::AugmentCovariance": c_augment, "EKF::MarginalizeCovariance": c_marginalize, **ROT}


def aug_lemma(p, I_, e, T, pos, n1, inserted_):
    """sum of the clone widths after the list at position pos got n1 entries (inserted or replaced)"""
    m = T.f["m_state"].f["aug_states"]
    L0, L1 = Layout(e.f["m_state"]), Layout(T.f["m_state"])
    w1 = mul(I(6), n1)
    if inserted_:
        def F(t): return ite(le(t, pos), L0.total("aug_states", t), add(L0.total("aug_states", sub(t, I(1))), w1))
    else:
        w0 = mul(I(6), e.f["m_state"].f["aug_states"].val(pos).n)
        def F(t): return ite(le(t, pos), L0.total("aug_states", t), add(L0.total("aug_states", t), sub(w1, w0)))
    p.P.sum_lemma("clone widths after the change", L1.k, L1.width("aug_states", m.val(L1.k)), F, [le(I(0), pos)])


def augment_frame(ctx, layout=True, content=True):
    """AugmentStateIfNeeded(camera, frame)"""
    def setup(I_):
        e = inv_ekf(I_, None)
        I_.assume(le(I(1), e.f["m_max_track_length"]))
        lv = I_.alloc(e)
        cam, fr = I_.sym("unsigned int", "cam"), I_.sym("int" if False else "unsigned int", "frame")
        setup.v = (e, lv, cam, fr)
        return lv, [cam, fr]
    def info(I_, p):
        """(position of the camera's list now, was it inserted, old length, new length)"""
        e, lv, cam, fr = setup.v
        T = p.load(lv)
        m0, m1 = e.f["m_state"].f["aug_states"], T.f["m_state"].f["aug_states"]
        ins = getattr(m1, "inserted", None)
        if not any(x[0] == "augment" for x in I_.events):
            return None
        if ins:
            pos = ins[1]
            return pos, True, I(0), m1.val(pos).n
        ex, pos = lib.map_pos(I_, m0, cam)
        return pos, False, m0.val(pos).n, m1.val(pos).n
    def lemmas(I_, p):
        setup.i = info(I_, p)
        if setup.i:
            e, lv, cam, fr = setup.v
            pos, ins, n0, n1 = setup.i
            aug_lemma(p, I_, e, p.load(lv), pos, n1, ins)
    def post(I_, p):
        e, lv, cam, fr = setup.v
        T = p.load(lv)
        if layout:
            prove_inv(p, T)
        if not content:
            return
        ty = e.f["m_augmenting_type"]
        ev = [x for x in I_.events if x[0] in ("augment", "marginalize")]
        want = or_(eq(ty, I(ENUM["ALL"])), and_(eq(ty, I(ENUM["PRIMARY"])), eq(cam, e.f["m_primary_camera_id"])))
        p.prove("a frame is remembered", T.f["m_frame_received_since_last_aug"])
        if setup.i is None:
            p.prove("every frame of a tracked camera is cloned", not_(want))
            prove_same(p, "nothing else changes: ", T, e, but=("m_frame_received_since_last_aug",))
            return
        p.prove("only frames that should be cloned are", want)
        pos, ins, n0, n1 = setup.i
        S0, S1 = e.f["m_state"], T.f["m_state"]
        mx = e.f["m_max_track_length"]
        full = lt(mx, add(n0, I(1)))
        p.prove("a full list stays at its length, another grows by one", eq(n1, ite(full, n0, add(n0, I(1)))))
        p.prove("no list exceeds the maximum track length", implies(le(n0, mx), le(n1, mx)))
        l1 = S1.f["aug_states"].val(pos)
        last = l1.at(sub(n1, I(1)))
        b = e.f["m_state"].f["body_state"]
        p.prove_eq("the clone is the current body position", last.f["pos_b_in_l"], b.f["pos_b_in_l"])
        p.prove_eq("the clone is the current body orientation", last.f["ang_b_to_l"], b.f["ang_b_to_l"])
        p.prove("the clone carries the current time", eq(last.f["time"], e.f["m_current_time"]))
        p.prove("the clone carries its frame", eq(last.f["frame_id"], fr))
        j, k = var("j!", "I"), var("k!", "I")
        if not ins:
            l0 = S0.f["aug_states"].val(pos)
            x, y = l1.at(j), l0.at(ite(full, add(j, I(1)), j))
            for f in x.f:
                if f != "index":
                    p.prove_eq(f"older clones keep {f}; only the oldest is dropped", x.f[f], y.f[f], [le(I(0), j), lt(j, sub(n1, I(1)))])
        kk = ite(lt(k, pos), k, add(k, I(1))) if ins else k
        x, y = S1.f["aug_states"].val(kk), S0.f["aug_states"].val(k)
        rng = [le(I(0), k), lt(k, S0.f["aug_states"].n)] + ([] if ins else [not_(eq(k, pos))])
        p.prove("clones of other cameras keep their number", eq(x.n, y.n), rng)
        for f in y.at(j).f:
            if f != "index":
                p.prove_eq(f"clones of other cameras keep {f}", x.at(j).f[f], y.at(j).f[f], rng + [le(I(0), j), lt(j, y.n)])
        for name in Layout.ORDER[:-1]:
            a, c = S1.f[name].val(k), S0.f[name].val(k)
            for f in c.f:
                p.prove_eq(f"{name} keep {f}", a.f[f], c.f[f], [le(I(0), k), lt(k, S0.f[name].n)])
        p.prove_eq("the body state is kept", S1.f["body_state"], S0.f["body_state"])
        # covariance: the oldest clone is marginalised when full, then the pose is cloned at the new clone's own place
        C = e.f["m_cov"]
        base = C
        mg = [x for x in ev if x[0] == "marginalize"]
        ag = [x for x in ev if x[0] == "augment"]
        p.prove("at most one clone is marginalised and one added", B(len(mg) <= 1 and len(ag) == 1))
        p.prove("a clone is marginalised exactly when the list is full", eq(full, B(len(mg) == 1)))
        if mg:
            p.prove("the oldest clone of this camera is marginalised out of the covariance",
                    and_(B(mg[0][1] is C), eq(mg[0][2], add(Layout(S0).index("aug_states", pos), I(0))), eq(mg[0][3], I(6))))
            base = mg[0][4]
        p.prove("the pose is cloned at the new clone's own place",
                and_(B(ag[0][1] is base and T.f["m_cov"] is ag[0][3]), eq(ag[0][2], add(Layout(S1).index("aug_states", pos), mul(I(6), sub(n1, I(1)))))))
        frame(p, T, e, OTHER + CAMF + [x for x in SIZES.values() if x != "m_aug_state_size"])
    ctx.check("EKF::AugmentStateIfNeeded", setup, post, nparams=2, lemmas=lemmas, contracts=AUGC, label="EKF::AugmentStateIfNeeded(camera, frame)")

import loops as _loops


class Pruned(_loops.LoopInv):
    """The pruning loop over the shared clone list.  With the counter at i, e of the len0 clones are gone: the clones
    up to i are the original ones, those above are the original ones e places further on; e > 0 means that the clone
    right above the gap is too old and e = 0 means that no clone from i + 2 on is."""

    def __init__(self, lv):
        self.lv = lv

    def fits(self, I_, s, writes):
        f = {w.path[0][1] for w in writes if w.loc == self.lv().loc and w.path and w.path[0][0] == "f"}
        other = {w.loc for w in writes if w.loc != self.lv().loc}
        if len(other) != 1 or not f <= set(self.FIELDS):
            return False
        self.cnt = LV(other.pop())
        v = I_.load(self.cnt)
        return isinstance(v, E) and v.sort == "I"

    def begin(self, I_, s):
        self.e0 = I_.load(self.lv())
        self.m0 = self.e0.f["m_state"].f["aug_states"]
        ex, self.kk = lib.map_pos(I_, self.m0, I(0))
        if not ex:
            raise Unsupported("the shared clone list does not exist")
        self.l0 = self.m0.val(self.kk)
        self.i, self.e = var("i@prune", "I"), var("e@prune", "I")
        self.C = self.e0.f["m_cov"]
        g = le(I(0), Layout(self.e0.f["m_state"]).total("aug_states", self.kk))
        if g not in I_.pc and I_.P.prove("clones before the shared list take no negative room", g, list(I_.pc)):
            I_.assume(g)

    def old(self, t): return lt(self.e0.f["m_max_track_duration"], sub(self.e0.f["m_current_time"], self.l0.at(t).f["time"]))

    def base(self): return Layout(self.e0.f["m_state"]).index("aug_states", self.kk)

    def at(self, i, e):
        """the filter with e clones removed above position i"""
        l = Seq(sub(self.l0.n, e), lambda t: merge(le(t, i), self.l0.at(t), self.l0.at(add(t, e))), self.l0.tag, self.l0.ety)
        S = self.e0.f["m_state"].set("aug_states", self.m0.set(self.kk, l))
        S = indexed(S)
        n = sub(self.e0.f["m_state_size"], mul(I(6), e))
        T = self.e0.set("m_state", S).set("m_state_size", n).set("m_aug_state_size", sub(self.e0.f["m_aug_state_size"], mul(I(6), e)))
        for x in Layout.ORDER:
            T = T.set(STARTS[x], Layout(S).start(x))
        T = T.set("m_process_noise", mvar("procnoise@prune", n, n))
        return T.set("m_cov", kept(I_of[0], self.C, add(self.base(), mul(I(6), add(i, I(1)))), mul(I(6), e)))

    def facts(self, i, e):
        q = var("q@prune", "I")
        yield "counter and removed clones", and_(le(I(-1), i), le(i, sub(self.l0.n, I(2))), le(I(0), e), lt(add(add(i, I(1)), e), ite(lt(I(0), self.l0.n), self.l0.n, I(1)))), ()
        yield "the clone above the gap is too old", or_(eq(e, I(0)), self.old(add(add(i, I(1)), e))), ()
        rng = [lt(add(add(i, I(1)), e), q), lt(q, self.l0.n)]
        yield "no clone further on is too old", not_(self.old(q)), rng

    def havoc(self, I_):
        I_of[0] = I_
        for nm, g, ex in self.facts(self.i, self.e):
            I_.assume(_loops.forall_(var("q@prune", "I"), implies(and_(*ex), g)) if ex else g)
        I_.store[self.lv().loc] = _loops.setp(I_, I_.store[self.lv().loc], self.lv().path, self.at(self.i, self.e))
        I_.store[self.cnt.loc] = self.i
        self.lemma(I_, self.e)

    def lemma(self, I_, e):
        T = I_.load(self.lv())
        L0, L1 = Layout(self.e0.f["m_state"]), Layout(T.f["m_state"])
        key = (L1.width("aug_states", T.f["m_state"].f["aug_states"].val(L1.k)), e)
        if key in I_.P.__dict__.setdefault("prunelem", set()):
            return
        I_.P.prunelem.add(key)
        def F(t): return ite(le(t, self.kk), L0.total("aug_states", t), sub(L0.total("aug_states", t), mul(I(6), e)))
        I_.P.sum_lemma("clone widths while pruning", L1.k, key[0], F, [le(I(0), self.kk)])

    def written(self, I_): return [LV(self.lv().loc, self.lv().path + (("f", f),)) for f in self.FIELDS] + [self.cnt]

    FIELDS = ["m_state", "m_state_size", "m_aug_state_size", "m_cov", "m_process_noise"] + list(STARTS.values())

    def covers(self, I_, w):
        if w.loc == self.cnt.loc:
            return True
        # RefreshIndices (contract) rewrites the object as a whole; step() compares every field
        return w.loc == self.lv().loc

    def same(self, I_, T, i, e):
        """T is the filter with e clones removed above i"""
        W = self.at(i, e)
        k, j = var("k!", "I"), var("j!", "I")
        S1, S0 = T.f["m_state"], W.f["m_state"]
        def vals(nm, a, b, ex=()):
            if a is b:
                return
            for (path, x, y) in veq_terms(a, b):
                if isinstance(x, Mx):
                    if x is y:
                        continue
                    if not (small(x) and small(y)):
                        raise Unsupported("matrix in a sub-state")
                    for u, v in zip(_loops.flatten(x), _loops.flatten(y)):
                        yield nm + path, eq(u, v), ex
                    continue
                yield nm + path, eq(x, y), ex
        yield from vals("body", S1.f["body_state"], S0.f["body_state"])
        for name in Layout.ORDER:
            a, b = S1.f[name], S0.f[name]
            yield f"number of {name}", eq(a.n, b.n), ()
            rng = [le(I(0), k), lt(k, b.n)]
            x, y = a.val(k), b.val(k)
            yield f"keys of {name}", eq(a.key(k), b.key(k)), rng
            if name == "aug_states":
                yield f"lengths of {name}", eq(x.n, y.n), rng
                rng = rng + [le(I(0), j), lt(j, y.n)]
                x, y = x.at(j), y.at(j)
            yield from vals(name, x, y, rng)
        for f in W.f:
            if f in ("m_state", "m_cov", "m_process_noise") or isinstance(W.f[f], (Opaque, Map, Seq)) or T.f[f] is W.f[f]:
                continue
            yield from vals(f, T.f[f], W.f[f])
        Q = T.f["m_process_noise"]
        yield "process noise is square of the state size", and_(eq(Q.r, W.f["m_state_size"]), eq(Q.c, W.f["m_state_size"])), ()
        c, want = T.f["m_cov"], I_.P.kept_of[W.f["m_cov"]]
        C, at, ln = I_.P.kept_of.get(c, (c, I(0), I(0)))
        if C is not self.C:
            yield "the covariance is the original one without the removed clones", FALSE, ()
        else:
            yield "the covariance is the original one without the removed clones", and_(eq(ln, want[2]), or_(eq(ln, I(0)), eq(at, want[1]))), ()

    def entry(self, I_):
        I_of[0] = I_
        T = I_.load(self.lv())
        i = I_.load(self.cnt)
        self.lemma(I_, I(0))
        W = self.at(i, I(0))
        yield from self.facts(i, I(0))
        yield from self.same(I_, T, i, I(0))

    def step(self, I_):
        I_of[0] = I_
        T = I_.load(self.lv())
        i = I_.load(self.cnt)
        yield "the counter goes down by one", eq(i, sub(self.i, I(1))), ()
        i = sub(self.i, I(1))
        e = sub(self.l0.n, T.f["m_state"].f["aug_states"].val(self.kk).n)
        yield "none or one clone goes", or_(eq(e, self.e), eq(e, add(self.e, I(1)))), ()
        yield from self.facts(i, e)
        yield from self.same(I_, T, i, e)

    def lemmas(self, I_):
        T = I_.load(self.lv())
        self.lemma(I_, sub(self.l0.n, T.f["m_state"].f["aug_states"].val(self.kk).n))


I_of = [None]


def absr(x): return ite(lt(x, R(0)), neg(x), x)


def augment_window(ctx, layout=True, content=True):
    """AugmentStateIfNeeded() after a prediction: the shared window of clones"""
    for mode in ("TIME", "ERROR", "other"):
        def setup(I_, mode=mode):
            e = inv_ekf(I_, None)
            ty = e.f["m_augmenting_type"]
            if mode == "other":
                I_.assume(or_(*[eq(ty, I(ENUM[x])) for x in ("NONE", "ALL", "PRIMARY")]))
            else:
                e = e.set("m_augmenting_type", I(ENUM[mode]))
            lv = I_.alloc(e)
            setup.v = (e, lv)
            return lv, []
        inv = Pruned(lambda: setup.v[1])
        def info(I_, p):
            e, lv = setup.v
            T = p.load(lv)
            m0, m1 = e.f["m_state"].f["aug_states"], T.f["m_state"].f["aug_states"]
            if m1 is m0:
                return None
            ins = getattr(m1, "inserted", None)
            if ins:
                return ins[1], True, I(0), m1.val(ins[1]).n
            ex, pos = lib.map_pos(I_, m0, I(0))
            return pos, False, m0.val(pos).n, m1.val(pos).n
        def lemmas(I_, p):
            setup.i = info(I_, p)
            if setup.i:
                e, lv = setup.v
                pos, ins, n0, n1 = setup.i
                aug_lemma(p, I_, e, p.load(lv), pos, n1, ins)
        def post(I_, p, mode=mode):
            e, lv = setup.v
            T = p.load(lv)
            if layout:
                prove_inv(p, T)
            if not content:
                return
            b = e.f["m_state"].f["body_state"]
            if mode == "other":
                prove_same(p, "the shared window is not used: ", T, e)
                return
            ag = [x for x in I_.events if x[0] == "augment"]
            S0, S1 = e.f["m_state"], T.f["m_state"]
            m0 = S0.f["aug_states"]
            now, dur = e.f["m_current_time"], e.f["m_max_track_duration"]
            fl = e.f["m_frame_received_since_last_aug"]
            if setup.i is None:
                n0, ins, pos = m0.val(lib.map_pos(I_, m0, I(0))[1]).n, False, lib.map_pos(I_, m0, I(0))[1]
                n1 = n0
            else:
                pos, ins, n0, n1 = setup.i
            l0 = None if ins else m0.val(pos)
            last = None if ins else l0.at(sub(n0, I(1)))
            if mode == "TIME":
                need = lt(e.f["m_augmenting_delta_time"], absr(sub(now, e.f["m_augmenting_prev_time"])))
            elif not ins:
                dt = sub(now, last.f["time"])
                dp = msub(b.f["pos_b_in_l"], madd(last.f["pos_b_in_l"], mscale(dt, b.f["vel_b_in_l"])))
                rq = rotvec_quat(I_, vec(*[mul(elem(b.f["ang_vel_b_in_l"], c, 0), dt) for c in range(3)]))
                da = quat_rotvec(I_, qmul(qmul(b.f["ang_b_to_l"], qconj(rq)), qconj(last.f["ang_b_to_l"])))
                moved = or_(lt(e.f["m_augmenting_pos_error"], fn("sqrt", lib.vnorm2(dp))), lt(e.f["m_augmenting_ang_error"], fn("sqrt", lib.vnorm2(da))))
                need = or_(lt(dur, dt), and_(lt(e.f["m_min_aug_period"], dt), moved))
            need = TRUE if ins else or_(eq(n0, I(0)), need)
            do = and_(need, fl)
            what = {"TIME": "enough time has passed", "ERROR": "the motion model no longer explains the motion"}[mode]
            p.prove(f"a pose is cloned exactly when a frame was received since and {what} (or there is none)", do if ag else not_(do))
            p.prove("a new frame is needed for the next clone", eq(T.f["m_frame_received_since_last_aug"], FALSE if ag else fl))
            p.prove("the time of the last clone is remembered", eq(T.f["m_augmenting_prev_time"], now if ag else e.f["m_augmenting_prev_time"]))
            l1 = S1.f["aug_states"].val(pos)
            new = I(1 if ag else 0)
            gone = sub(add(n0, new), n1)
            p.prove("clones are only removed from the window, one at most is added", and_(le(I(0), gone), le(gone, n0), B(len(ag) <= 1)))
            j, k = var("j!", "I"), var("k!", "I")
            if ag:
                x = l1.at(sub(n1, I(1)))
                p.prove_eq("the clone is the current body position", x.f["pos_b_in_l"], b.f["pos_b_in_l"])
                p.prove_eq("the clone is the current body orientation", x.f["ang_b_to_l"], b.f["ang_b_to_l"])
                p.prove("the clone carries the current time", eq(x.f["time"], now))
            base, C = e.f["m_cov"], e.f["m_cov"]
            if not ins:
                def old(t): return lt(dur, sub(now, l0.at(t).f["time"]))
                p.prove("a clone is dropped only if the next newer one is too old as well", or_(eq(gone, I(0)), old(gone)))
                p.prove("the newest clone is never dropped", implies(lt(I(0), n0), lt(gone, n0)))
                p.prove("no older pair of clones stays", not_(old(j)), [lt(gone, j), lt(j, n0)])
                x, y = l1.at(j), l0.at(add(j, gone))
                for f in x.f:
                    if f != "index":
                        p.prove_eq(f"clones that stay keep {f}, oldest first", x.f[f], y.f[f], [le(I(0), j), lt(j, sub(n0, gone))])
            else:
                p.prove("nothing to drop", eq(gone, I(0)))
            kk = ite(lt(k, pos), k, add(k, I(1))) if ins else k
            x, y = S1.f["aug_states"].val(kk), m0.val(k)
            rng = [le(I(0), k), lt(k, m0.n)] + ([] if ins else [not_(eq(k, pos))])
            p.prove("clones of cameras keep their number", eq(x.n, y.n), rng)
            for f in y.at(j).f:
                if f != "index":
                    p.prove_eq(f"clones of cameras keep {f}", x.at(j).f[f], y.at(j).f[f], rng + [le(I(0), j), lt(j, y.n)])
            for name in Layout.ORDER[:-1]:
                a, c = S1.f[name].val(k), S0.f[name].val(k)
                for f in c.f:
                    p.prove_eq(f"{name} keep {f}", a.f[f], c.f[f], [le(I(0), k), lt(k, S0.f[name].n)])
            p.prove_eq("the body state is kept", S1.f["body_state"], S0.f["body_state"])
            cur = T.f["m_cov"]
            if ag:
                p.prove("the pose is cloned at the new clone's own place",
                        and_(B(cur is ag[0][3]), eq(ag[0][2], add(Layout(S1).index("aug_states", pos), mul(I(6), sub(n1, I(1)))))))
                cur = ag[0][1]
            c0, at, ln = I_.P.__dict__.setdefault("kept_of", {}).get(cur, (cur, I(0), I(0)))
            p.prove("exactly the dropped clones are marginalised out of the covariance",
                    and_(B(c0 is C), eq(ln, mul(I(6), gone)), or_(eq(gone, I(0)), eq(at, Layout(S0).index("aug_states", pos) if not ins else I(0)))))
            frame(p, T, e, [x for x in OTHER if x != "m_augmenting_prev_time"] + CAMF + [x for x in SIZES.values() if x != "m_aug_state_size"])
        ctx.check("EKF::AugmentStateIfNeeded", setup, post, nparams=0, lemmas=lemmas, contracts=AUGC, loops={"EKF::AugmentStateIfNeeded": [inv]},
                  label=f"EKF::AugmentStateIfNeeded() ({mode})")


ENUM = enum_values("AugmentationType")


def c_aug(I_, this, args, f):
    """AugmentStateIfNeeded() after a prediction (contract of the sliding window); may change clones and covariance"""
    e = I_.load(this)
    I_.events.append(("window", e))
    return None


def c_nolog(I_, this, args, f):
    """LogBodyStateIfNeeded writes a row and changes nothing of the filter's estimate"""
    I_.events.append(("bodylog", I_.load(this)))
    return None


GRAVITY = (0, 0, "9.80665")


def predict(ctx, mean=True, cov=True):
    for root in (False, True):
        def setup(I_, root=root):
            e = inv_ekf(I_, root)
            n = e.f["m_state_size"]
            e = e.set("m_cov", mvar("cov~psd" if not root else "cov~upper", n, n))
            if root:
                upper_axiom(I_, e.f["m_cov"])
            e = e.set("m_process_noise", mvar("procnoise~diag", n, n))
            lv = I_.alloc(e)
            t = I_.sym("double", "t")
            setup.v = (e, lv, t)
            return lv, [t]
        def post(I_, p, root=root):
            e, lv, t = setup.v
            T = p.load(lv)
            t0 = e.f["m_current_time"]
            win = [x for x in I_.events if x[0] == "window"]
            if T.f["m_current_time"] is t0 and not win:
                p.prove("only a time in the past is refused", lt(t, t0))
                prove_same(p, "a time in the past changes nothing: ", T, e)
                return
            p.prove("time never runs backwards", le(t0, T.f["m_current_time"]))
            p.prove("the filter's time is the requested one", eq(T.f["m_current_time"], t))
            p.prove("the sliding window is maintained exactly once, after the prediction", B(len(win) == 1 and win[0][1].f["m_current_time"] is T.f["m_current_time"] and win[0][1].f["m_cov"] is T.f["m_cov"]))
            prove_same(p, "nothing else changes: ", T, e, but=("m_state", "m_current_time", "m_cov"))
            b0, b1 = e.f["m_state"].f["body_state"], T.f["m_state"].f["body_state"]
            prove_same_state(p, "sensor and clone states are kept: ", T.f["m_state"].set("body_state", b0), e.f["m_state"])
            g = e.f["m_is_gravity_initialized"]
            dt = sub(t, t0)
            if mean:
                za = e.f["m_is_zero_acceleration"]
                for c in range(3):
                    def x(f, c=c): return elem(b0.f[f], c, 0)
                    a = ite(za, R(0), sub(x("acc_b_in_l"), R(GRAVITY[c])))
                    v = add(x("vel_b_in_l"), mul(dt, a))
                    p.prove(f"velocity {c}", eq(elem(b1.f["vel_b_in_l"], c, 0), ite(g, v, x("vel_b_in_l"))))
                    p.prove(f"position {c}", eq(elem(b1.f["pos_b_in_l"], c, 0), ite(g, add(x("pos_b_in_l"), mul(dt, v)), x("pos_b_in_l"))))
                rv = rotvec_quat(I_, vec(*[mul(elem(b0.f["ang_vel_b_in_l"], c, 0), dt) for c in range(3)]))
                p.prove_eq("orientation when moving", b1.f["ang_b_to_l"], qmul(rv, b0.f["ang_b_to_l"]), [g])
                p.prove_eq("orientation before gravity is known", b1.f["ang_b_to_l"], b0.f["ang_b_to_l"], [not_(g)])
                for f in ("acc_b_in_l", "ang_vel_b_in_l", "ang_acc_b_in_l", "index", "size"):
                    p.prove_eq(f"body {f} is kept", b1.f[f], b0.f[f])
            if not cov:
                return
            P, N = e.f["m_cov"], T.f["m_cov"]
            n = P.c
            Q = e.f["m_process_noise"]
            p.prove("covariance keeps its size", and_(eq(N.r, n), eq(N.c, n)))
            if N is P:
                p.prove("covariance is kept only before gravity is known", not_(g))
                return
            def FPF(X):
                """F X F' for the transition F that adds dt times velocity to position"""
                def r(i, j): return add(elem(X, i, j), ite(lt(i, I(3)), mul(dt, elem(X, add(i, I(3)), j)), R(0)))
                return fmat(n, n, add(r(bi, bj), ite(lt(bj, I(3)), mul(dt, r(bi, add(bj, I(3)))), R(0))))
            if not root:
                p.prove_mat("covariance becomes F (P + Q dt) F'", N, FPF(fmat(n, n, add(elem(P, bi, bj), ite(eq(bi, bj), mul(dt, elem(Q, bi, bi)), R(0))))))
            else:
                p.prove("the root is triangularised from two stacked roots", B(N.op == "mqr"))
                A, W = N.args
                p.prove_mat("first root: R F', whose product is F P F'", A, fmat(n, n, add(elem(P, bi, bj), ite(lt(bj, I(3)), mul(dt, elem(P, bi, add(bj, I(3)))), R(0)))))
                p.prove_mat("second root: its product is Q dt", mmul(mtr(W), W), mscale(dt, mmul(mtr(Q), Q)))
        ctx.check("EKF::PredictModel", setup, post, contracts={**LOGC, "EKF::AugmentStateIfNeeded": c_aug, "EKF::LogBodyStateIfNeeded": c_nolog, "QR_r": c_qr, **ROT},
                  label="EKF::PredictModel " + ("(root form)" if root else "(covariance form)"))


def P09(ctx): predict(ctx, mean=True, cov=False); local_time(ctx)
def P10(ctx): predict(ctx, mean=False, cov=True)


def local_time(ctx):
    def setup(I_):
        e = inv_ekf(I_, None)
        lv = I_.alloc(e)
        t = I_.sym("double", "t")
        setup.v = (e, lv, t)
        return lv, [t]
    def post(I_, p):
        e, lv, t = setup.v
        T = p.load(lv)
        i = e.f["m_time_initialized"]
        p.prove("time is relative to the reference; the first time becomes the reference", eq(p.retv, ite(i, sub(t, e.f["m_reference_time"]), R(0))))
        p.prove("reference", eq(T.f["m_reference_time"], ite(i, e.f["m_reference_time"], t)))
        p.prove("current time", eq(T.f["m_current_time"], ite(i, e.f["m_current_time"], R(0))))
        p.prove("clock is initialised", T.f["m_time_initialized"])
        prove_same(p, "nothing else changes: ", T, e, but=("m_reference_time", "m_current_time", "m_time_initialized"))
    ctx.check("EKF::CalculateLocalTime", setup, post, contracts=LOGC)


GETTERS = {"EKF::GetStateSize": "m_state_size", "EKF::GetImuStateSize": "m_imu_state_size", "EKF::GetGpsStateSize": "m_gps_state_size", "EKF::GetCamStateSize": "m_cam_state_size",
           "EKF::GetAugStateSize": "m_aug_state_size", "EKF::GetImuStateStart": "m_imu_state_start", "EKF::GetGpsStateStart": "m_gps_state_start", "EKF::GetCamStateStart": "m_cam_state_start",
           "EKF::GetFidStateStart": "m_fid_state_start", "EKF::GetAugStateStart": "m_aug_state_start"}


def getters(ctx):
    for fn_, fld in GETTERS.items():
        def setup(I_, fld=fld):
            e = inv_ekf(I_, None)
            setup.v = e
            return I_.alloc(e), []
        def post(I_, p, fld=fld):
            L = Layout(setup.v.f["m_state"])
            inv = {v: k for k, v in STARTS.items()}
            sz = {v: k for k, v in SIZES.items()}
            want = L.size() if fld == "m_state_size" else (L.start(inv[fld]) if fld in inv else L.total(sz[fld]))
            p.prove("reports the value of the layout", eq(p.retv, want))
        ctx.check(fn_, setup, post)
    for fn_, m in (("EKF::GetImuCount", "imu_states"), ("EKF::GetGpsCount", "gps_states"), ("EKF::GetCamCount", "cam_states")):
        def setup2(I_):
            e = inv_ekf(I_, None)
            setup2.v = e
            return I_.alloc(e), []
        ctx.check(fn_, setup2, lambda I_, p, m=m: p.prove("reports the number of registered sensors", eq(p.retv, setup2.v.f["m_state"].f[m].n)))


def flags(ctx):
    """the size field of a sensor state follows its flags"""
    for cls, setters in (("ImuState", ("SetIsExtrinsic", "SetIsIntrinsic")), ("GpsState", ("SetIsExtrinsic",)), ("CamState", ("SetIsExtrinsic",)), ("FidState", ("SetIsExtrinsic",))):
        for m in setters:
            def setup(I_, cls=cls):
                o = I_.sym(cls, "o")
                lv = I_.alloc(o)
                b = I_.sym("bool", "flag")
                setup.v = (o, lv, b)
                return lv, [b]
            def post(I_, p, cls=cls, m=m):
                o, lv, b = setup.v
                T = p.load(lv)
                fld = "is_extrinsic" if "Ext" in m else "is_intrinsic"
                p.prove_eq("flag is set, size is the number of estimated entries, nothing else changes", T, TYPE_INV[cls](o.set(fld, b)))
            ctx.check(f"{cls}::{m}", setup, post)


def P01(ctx):
    refresh(ctx)
    register(ctx, content=False)
    augment_frame(ctx, content=False)
    augment_window(ctx, content=False)
    getters(ctx)
    flags(ctx)


def P02(ctx): register(ctx, layout=False)
def P07(ctx):
    augment_frame(ctx, layout=False)
    augment_window(ctx, layout=False)
