from common import *
from spec import *


def comp(ctx):
    """composition of a state with a correction vector"""


def corrected(I_, name, o, v, at):
    """sub-state o of the given kind with the correction v[at..] applied"""
    def rot(f, off): return qmul(o.f[f], rotvec_quat(I_, seg(v, add(at, I(off)))))
    def plus(f, off): return madd(o.f[f], seg(v, add(at, I(off))))
    if name == "body":
        return {"pos_b_in_l": plus("pos_b_in_l", 0), "vel_b_in_l": plus("vel_b_in_l", 3), "acc_b_in_l": plus("acc_b_in_l", 6),
                "ang_b_to_l": rot("ang_b_to_l", 9), "ang_vel_b_in_l": plus("ang_vel_b_in_l", 12), "ang_acc_b_in_l": plus("ang_acc_b_in_l", 15)}
    if name == "imu_states":
        e, i = o.f["is_extrinsic"], o.f["is_intrinsic"]
        ii = ite(e, I(6), I(0))
        return {"pos_i_in_b": merge(e, plus("pos_i_in_b", 0), o.f["pos_i_in_b"]),
                "ang_i_to_b": merge(e, rot("ang_i_to_b", 3), o.f["ang_i_to_b"]),
                "acc_bias": merge(i, merge(e, plus("acc_bias", 6), plus("acc_bias", 0)), o.f["acc_bias"]),
                "omg_bias": merge(i, merge(e, plus("omg_bias", 9), plus("omg_bias", 3)), o.f["omg_bias"])}
    p, a = {"gps_states": ("pos_a_in_b", None), "cam_states": ("pos_c_in_b", "ang_c_to_b"),
            "fid_states": ("pos_f_in_l", "ang_f_to_l"), "aug_states": ("pos_b_in_l", "ang_b_to_l")}[name]
    c = TRUE if name == "aug_states" else o.f["is_extrinsic"]
    r = {p: merge(c, plus(p, 0), o.f[p])}
    if a:
        r[a] = merge(c, rot(a, 3), o.f[a])
    return r


def all_corrected(I_, p, S, T, v):
    """T is S with the correction v applied to every sub-state at its own index, and nothing else changed"""
    L = Layout(S)
    b = Obj("BodyState", {**S.f["body_state"].f, **corrected(I_, "body", S.f["body_state"], v, I(0))})
    p.prove_eq("body sub-state corrected by entries 0..17", T.f["body_state"], b)
    k = var("k!", "I")
    for name in Layout.ORDER:
        m0, m1 = S.f[name], T.f[name]
        p.prove(f"{name}: same number of entries", eq(m0.n, m1.n))
        rng = [le(I(0), k), lt(k, m0.n)]
        if name != "aug_states":
            o = m0.val(k)
            exp = Obj(o.cls, {**o.f, **corrected(I_, name, o, v, L.index(name, k))})
            p.prove_eq(f"{name}[k] corrected by its own entries", m1.val(k), exp, rng)
        else:
            j = var("j!", "I")
            o = m0.val(k).at(j)
            rng = rng + [le(I(0), j), lt(j, m0.val(k).n)]
            exp = Obj(o.cls, {**o.f, **corrected(I_, name, o, v, add(L.index(name, k), mul(I(6), j)))})
            p.prove(f"{name}[k]: same number of clones", eq(m0.val(k).n, m1.val(k).n), rng)
            p.prove_eq(f"{name}[k][j] corrected by its own entries", m1.val(k).at(j), exp, rng)


def is_vec2(cls):
    def pred(f):
        return len(f["ps"]) == 2 and strip(f["ps"][0]["t"]).endswith(cls) and "Eigen::Matrix<double, -1, 1>" in f["ps"][1]["t"]
    return pred


def P03(ctx):
    def setup(I_):
        S = state(I_)
        v = mvar("v", Layout(S).size(), I(1))
        lv = I_.alloc(S)
        setup.v = (S, v, lv)
        return None, [lv, I_.alloc(v)]
    def post(I_, p):
        S, v, lv = setup.v
        all_corrected(I_, p, S, p.load(lv), v)
    ctx.check("operator+=", setup, post, pred=lambda f: strip(f["ps"][0]["t"]) == "State" and "Eigen" in f["ps"][1]["t"], contracts=ROT, label="State += vector")
    def part(fn_name, cls, name, single=False):
        """`container += vector` for one kind on its own: the correction starts at entry 0"""
        def setup(I_):
            S = state(I_)
            L = Layout(S)
            if single:
                o = S.f["body_state"] if cls == "BodyState" else I_.sym(cls, "o")
                lv = I_.alloc(o)
                n = I(18) if cls == "BodyState" else (imu_sz(o) if cls == "ImuState" else None)
            elif name == "aug_states":
                o = I_.sym("std::vector<AugState>", "augs")
                lv = I_.alloc(o)
                n = mul(I(6), o.n)
            else:
                o = S.f[name]
                lv = I_.alloc(o)
                n = L.total(name)
            v = mvar("v", n, I(1))
            setup.v = (S, L, o, v, lv)
            return None, [lv, I_.alloc(v)]
        def post(I_, p):
            S, L, o, v, lv = setup.v
            r = p.load(lv)
            k = var("k!", "I")
            if single:
                kind = "body" if cls == "BodyState" else name
                p.prove_eq(f"{cls}: corrected by its own entries, nothing else changed", r, Obj(o.cls, {**o.f, **corrected(I_, kind, o, v, I(0))}))
                return
            p.prove(f"{name}: same number of entries", eq(o.n, r.n))
            rng = [le(I(0), k), lt(k, o.n)]
            if name == "aug_states":
                x = o.at(k)
                p.prove_eq("clones[k] corrected by its own entries", r.at(k), Obj(x.cls, {**x.f, **corrected(I_, name, x, v, mul(I(6), k))}), rng)
            else:
                x = o.val(k)
                p.prove_eq(f"{name}[k] corrected by its own entries", r.val(k), Obj(x.cls, {**x.f, **corrected(I_, name, x, v, L.total(name, k))}), rng)
        def pred(f):
            if len(f["ps"]) != 2 or "Eigen" not in f["ps"][1]["t"]:
                return False
            t = strip(f["ps"][0]["t"])
            if single:
                return t == cls
            return cls in t and t.startswith("std::")
        ctx.check("operator+=", setup, post, pred=pred, contracts=ROT, label=fn_name)
    # a whole state added to a state of the same sensors and clones
    def joined(kind, a, b):
        """what two sub-states become: sums, and the right one's rotation after (left of) the left one's"""
        r = {}
        for f, off in ([("pos_i_in_b", 0), ("ang_i_to_b", 0), ("acc_bias", 0), ("omg_bias", 0)] if kind == "imu_states" else entries(kind, a)):
            r[f] = qmul(b.f[f], a.f[f]) if isinstance(a.f[f], Quat) else madd(a.f[f], b.f[f])
        return Obj(a.cls, {**a.f, **r})
    def s_bb(I_):
        a, b = I_.sym("BodyState", "a"), I_.sym("BodyState", "b")
        lv = I_.alloc(a)
        s_bb.v = (a, b, lv)
        return None, [lv, I_.alloc(b)]
    def p_bb(I_, p):
        a, b, lv = s_bb.v
        p.prove_eq("body: each quantity added, orientation turned further by the other", p.load(lv), joined("body", a, b))
    ctx.check("operator+=", s_bb, p_bb, pred=lambda f: len(f["ps"]) == 2 and strip(f["ps"][0]["t"]) == "BodyState" and "Eigen" not in f["ps"][1]["t"], contracts=ROT, label="BodyState += BodyState")
    def s_ss(I_):
        S = state(I_)
        T = I_.sym("State", "R")
        for name in Layout.ORDER:
            m0, m1 = S.f[name], T.f[name]
            if name == "aug_states":
                val = lambda k, m0=m0, m1=m1: Seq(m0.val(k).n, m1.val(k).at, m1.val(k).tag, m1.val(k).ety)
            else:
                val = m1.val
            T = T.set(name, Map(m0.n, m0.key, val, m0.tag, m1.vty, m1.default))
        lv, rv = I_.alloc(S), I_.alloc(T)
        s_ss.v = (S, T, lv, rv)
        return None, [lv, rv]
    def p_ss(I_, p):
        S, T, lv, rv = s_ss.v
        X, Y = p.load(lv), p.load(rv)
        p.prove_eq("body added", X.f["body_state"], joined("body", S.f["body_state"], T.f["body_state"]))
        k, j = var("k!", "I"), var("j!", "I")
        for name in Layout.ORDER:
            m0, m1 = S.f[name], X.f[name]
            p.prove(f"{name}: same entries", eq(m0.n, m1.n))
            p.prove(f"{name}: the other state keeps its entries", eq(T.f[name].n, Y.f[name].n))
            rng = [le(I(0), k), lt(k, m0.n)]
            if name == "aug_states":
                p.prove("same number of clones", eq(m0.val(k).n, m1.val(k).n), rng)
                r2 = rng + [le(I(0), j), lt(j, m0.val(k).n)]
                p.prove_eq("clone j of list k added to the same clone of the other state", m1.val(k).at(j), joined(name, m0.val(k).at(j), T.f[name].val(k).at(j)), r2)
            else:
                p.prove_eq(f"{name}[k] added to the same sensor of the other state", m1.val(k), joined(name, m0.val(k), T.f[name].val(k)), rng)
                p.prove_eq(f"{name}[k] of the other state is kept", Y.f[name].val(k), T.f[name].val(k), rng)
    ctx.check("operator+=", s_ss, p_ss, pred=lambda f: len(f["ps"]) == 2 and strip(f["ps"][0]["t"]) == "State" and "Eigen" not in f["ps"][1]["t"], contracts=ROT, label="State += State")
    part("BodyState += vector", "BodyState", None, True)
    part("ImuState += vector", "ImuState", "imu_states", True)
    part("map<ImuState> += vector", "ImuState", "imu_states")
    part("map<CamState> += vector", "CamState", "cam_states")
    part("vector<AugState> += vector", "AugState", "aug_states")


def entries(name, o):
    """what the stacked vector holds for one sub-state, as (offset, 3-vector) pairs with their guards"""
    if name == "imu_states":
        return None
    return {"gps_states": [("pos_a_in_b", 0)], "cam_states": [("pos_c_in_b", 0), ("ang_c_to_b", 3)],
            "fid_states": [("pos_f_in_l", 0), ("ang_f_to_l", 3)], "aug_states": [("pos_b_in_l", 0), ("ang_b_to_l", 3)],
            "body": [("pos_b_in_l", 0), ("vel_b_in_l", 3), ("acc_b_in_l", 6), ("ang_b_to_l", 9), ("ang_vel_b_in_l", 12), ("ang_acc_b_in_l", 15)]}[name]


def slots(name, o):
    """(field, offset term, guard) for every estimated 3-vector of the sub-state"""
    if name == "imu_states":
        e, i = o.f["is_extrinsic"], o.f["is_intrinsic"]
        ii = ite(e, I(6), I(0))
        return [("pos_i_in_b", I(0), e), ("ang_i_to_b", I(3), e), ("acc_bias", ii, i), ("omg_bias", add(ii, I(3)), i)]
    g = TRUE if name in ("aug_states", "body") else o.f["is_extrinsic"]
    return [(f, I(k), g) for f, k in entries(name, o)]


def each_slot(S, fn_):
    """fn_(label, sub-state, field, index term, range facts, path)"""
    L = Layout(S)
    for f, k, g in slots("body", S.f["body_state"]):
        fn_("body." + f, ("body_state",), S.f["body_state"], f, k, [])
    k = var("k!", "I")
    j = var("j!", "I")
    for name in Layout.ORDER:
        m = S.f[name]
        rng = [le(I(0), k), lt(k, m.n)]
        if name == "aug_states":
            o = m.val(k).at(j)
            r2 = rng + [le(I(0), j), lt(j, m.val(k).n)]
            for f, off, g in slots(name, o):
                fn_(f"{name}[k][j].{f}", (name, k, j), o, f, add(add(L.index(name, k), mul(I(6), j)), off), r2)
        else:
            o = m.val(k)
            for f, off, g in slots(name, o):
                fn_(f"{name}[k].{f}", (name, k), o, f, add(L.index(name, k), off), rng + [g])


def getp(S, path):
    if len(path) == 1:
        return S.f[path[0]]
    m = S.f[path[0]].val(path[1])
    return m.at(path[2]) if len(path) == 3 else m


def P04(ctx):
    # size
    def s_size(I_):
        S = state(I_)
        s_size.v = S
        return I_.alloc(S), []
    def p_size(I_, p):
        p.prove("size is the sum of the widths of all estimated sub-states", eq(p.retv, Layout(s_size.v).size()))
    ctx.check("State::GetStateSize", s_size, p_size)
    def c_size(I_, this, args, f): return Layout(I_.load(this)).size()
    # to vector
    def s_to(I_):
        S = state(I_)
        s_to.v = S
        return I_.alloc(S), []
    def p_to(I_, p):
        S = s_to.v
        p.prove("length equals the state size", eq(p.retv.r, Layout(S).size()))
        def one(lab, path, o, f, at, rng):
            x = o.f[f]
            x = quat_rotvec(I_, x) if isinstance(x, Quat) else x
            for c in range(3):
                p.prove(f"vector holds {lab}({c}) at its own index", eq(elem(p.retv, add(at, I(c)), I(0)), elem(x, c, 0)), rng)
        each_slot(S, one)
    ctx.check("State::ToVector", s_to, p_to, contracts={**ROT, "State::GetStateSize": c_size})
    # from vector
    def s_set(I_):
        S = state(I_)
        v = mvar("v", Layout(S).size(), I(1))
        lv = I_.alloc(S)
        s_set.v = (S, v, lv)
        return lv, [I_.alloc(v)]
    def p_set(I_, p):
        S, v, lv = s_set.v
        T = p.load(lv)
        done = {}
        def one(lab, path, o, f, at, rng):
            x = getp(T, path).f[f]
            e = seg(v, at)
            e = rotvec_quat(I_, e) if isinstance(o.f[f], Quat) else e
            p.prove_eq(f"{lab} is taken from its own entries", x, e, rng)
        each_slot(S, one)
        k, j = var("k!", "I"), var("j!", "I")
        for name in Layout.ORDER:
            m0, m1 = S.f[name], T.f[name]
            p.prove(f"{name}: same number of entries", eq(m0.n, m1.n))
            if name == "aug_states":
                continue
            o, x = m0.val(k), m1.val(k)
            est = {f: g for f, off, g in slots(name, o)}
            for f in o.f:
                p.prove_eq(f"{name}[k].{f} kept when not estimated", x.f[f], o.f[f], [le(I(0), k), lt(k, m0.n)] + ([not_(est[f])] if f in est else []))
    ctx.check("State::SetState", s_set, p_set, contracts=ROT)

    # one sub-state on its own
    FL = {"ImuState": ["is_extrinsic", "is_intrinsic"], "BodyState": [], "AugState": []}
    SZ = {"ImuState": imu_sz, "GpsState": lambda o: b2i(o.f["is_extrinsic"], 3), "CamState": lambda o: b2i(o.f["is_extrinsic"], 6),
          "FidState": lambda o: b2i(o.f["is_extrinsic"], 6), "BodyState": lambda o: I(18), "AugState": lambda o: I(6)}
    KIND = {"ImuState": "imu_states", "GpsState": "gps_states", "CamState": "cam_states", "FidState": "fid_states", "AugState": "aug_states", "BodyState": "body"}
    def vec_of(cls):
        """`x.ToVector()`: the quantities of x in order, nothing else (an IMU or a marker without calibration: none of them)"""
        def s1(I_):
            o = I_.sym(cls, "o")
            if cls in ("ImuState", "FidState"):
                o = o.set("size", SZ[cls](o))
            s1.v = o
            return I_.alloc(o), []
        def p1(I_, p):
            o = s1.v
            n = SZ[cls](o) if cls in ("ImuState", "FidState") else I({"GpsState": 3, "BodyState": 18}.get(cls, 6))
            p.prove(f"{cls}: length of its vector", eq(p.retv.r, n))
            for f, off, g in slots(KIND[cls], o):
                x = o.f[f]
                x = quat_rotvec(I_, x) if isinstance(x, Quat) else x
                for c in range(3):
                    p.prove(f"{cls}: its vector holds {f}({c})", eq(elem(p.retv, add(off, I(c)), I(0)), elem(x, c, 0)), [g] if cls in ("ImuState", "FidState") else [])
        ctx.check(cls + "::ToVector", s1, p1, contracts=ROT)
    for cls in KIND:
        vec_of(cls)
    def set_of(name, cls, fields):
        """`x.SetState(v)`: the listed quantities are v's entries in order, the rest of x is kept"""
        def s1(I_):
            o = I_.sym(cls, "o")
            v = mvar("v", I(3 * len(fields)), I(1))
            lv = I_.alloc(o)
            s1.v = (o, v, lv)
            return lv, [I_.alloc(v)]
        def p1(I_, p):
            o, v, lv = s1.v
            new = {}
            for i, f in enumerate(fields):
                e = seg(v, I(3 * i))
                new[f] = rotvec_quat(I_, e) if isinstance(o.f[f], Quat) else e
            p.prove_eq(f"{name}: takes its quantities from the vector, keeps the rest", p.load(lv), Obj(o.cls, {**o.f, **new}))
        ctx.check(f"{cls}::{name}", s1, p1, contracts=ROT)
    set_of("SetState", "BodyState", [f for f, k in entries("body", None)])
    set_of("SetState", "CamState", ["pos_c_in_b", "ang_c_to_b"])
    set_of("SetState", "FidState", ["pos_f_in_l", "ang_f_to_l"])
    set_of("SetExtrinsicState", "ImuState", ["pos_i_in_b", "ang_i_to_b"])
    set_of("SetIntrinsicState", "ImuState", ["acc_bias", "omg_bias"])
    def flag_of(name, cls, field):
        """`x.SetIs..(b)`: the flag is b, the size is that of the flags, the rest of x is kept"""
        def s1(I_):
            o = I_.sym(cls, "o")
            b = var("flag", "B")
            lv = I_.alloc(o)
            s1.v = (o, b, lv)
            return lv, [I_.alloc(b)]
        def p1(I_, p):
            o, b, lv = s1.v
            x = o.set(field, b)
            p.prove_eq(f"{cls}: flag and size", p.load(lv), x.set("size", SZ[cls](x)))
        ctx.check(f"{cls}::{name}", s1, p1)
    flag_of("SetIsIntrinsic", "ImuState", "is_intrinsic")
    for cls in ("ImuState", "GpsState", "CamState", "FidState"):
        flag_of("SetIsExtrinsic", cls, "is_extrinsic")
