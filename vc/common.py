"""Contracts and representation invariants shared by the property specifications."""
from terms import *
from interp import *
import lib


def seg(v, i, n=3):
    """n entries of a column vector starting at i, as a dense vector"""
    return vec(*[elem(v, add(lift(i), I(k)), I(0)) for k in range(n)])


def rotvec_quat(I_, v):
    """abstract value of RotVecToQuat (a unit quaternion that depends only on the vector)"""
    a = [elem(v, k, 0) for k in range(3)]
    q = Quat(*[app("rv2q_" + n, a, "R") for n in "wxyz"])
    I_.unit_quat(q)
    def hk(c):
        def h(env, x, y, z):
            n = math.sqrt(x * x + y * y + z * z)
            if n < 1e-12:
                return [1.0, 0.0, 0.0, 0.0][c]
            return math.cos(n / 2) if c == 0 else math.sin(n / 2) * (x, y, z)[c - 1] / n
        return h
    for c, n in enumerate("wxyz"):
        I_.P.hooks["rv2q_" + n] = hk(c)
    return q


def quat_rotvec(I_, q):
    """abstract value of QuatToRotVec (depends only on the quaternion)"""
    a = q.comps()
    def hk(c):
        def h(env, w, x, y, z):
            n = math.sqrt(x * x + y * y + z * z)
            if n < 1e-12:
                return 0.0
            ang = 2 * math.atan2(n, abs(w))
            return (x, y, z)[c] / n * ang * (1 if w >= 0 else -1)
        return h
    for c in range(3):
        I_.P.hooks[f"q2rv_{c}"] = hk(c)
    return vec(*[app(f"q2rv_{c}", a, "R") for c in range(3)])


def c_rv2q(I_, this, args, f):
    return rotvec_quat(I_, lib.val(I_, args[0]))


def c_q2rv(I_, this, args, f):
    return quat_rotvec(I_, lib.val(I_, args[0]))


ROT = {"RotVecToQuat": c_rv2q, "QuatToRotVec": c_q2rv}


def b2i(b, k): return ite(b, I(k), I(0))


# representation invariant of the sensor states: `size` is the number of estimated entries
def inv_imu(o): return o.set("size", imu_sz(o))
def inv_gps(o): return o.set("size", b2i(o.f["is_extrinsic"], 3))
def inv_6(o): return o.set("size", b2i(o.f["is_extrinsic"], 6))
def inv_aug(o): return o.set("size", I(6))
def inv_body(o): return o.set("size", I(18))


def imu_sz(o):
    e, i = o.f["is_extrinsic"], o.f["is_intrinsic"]
    return ite(e, ite(i, I(12), I(6)), ite(i, I(6), I(0)))


TYPE_INV = {"ImuState": inv_imu, "GpsState": inv_gps, "CamState": inv_6, "FidState": inv_6, "AugState": inv_aug, "BodyState": inv_body}


class Layout:
    """index arithmetic of the stacked state, in the documented order: body, imu, gps, cam, fid, aug; maps in key order"""
    ORDER = ["imu_states", "gps_states", "cam_states", "fid_states", "aug_states"]

    def __init__(self, st):
        self.st = st
        self.k = var("tL", "I")

    def width(self, name, o):
        if name == "imu_states":
            return imu_sz(o)
        if name == "gps_states":
            return b2i(o.f["is_extrinsic"], 3)
        if name in ("cam_states", "fid_states"):
            return b2i(o.f["is_extrinsic"], 6)
        return mul(I(6), o.n)

    def total(self, name, n=None):
        import loops
        m = self.st.f[name]
        k = self.k
        return loops.psum(m.n if n is None else n, k, self.width(name, m.val(k)))

    def start(self, name):
        s = I(18)
        for x in self.ORDER:
            if x == name:
                return s
            s = add(s, self.total(x))
        return s        # end

    def index(self, name, k): return add(self.start(name), self.total(name, k))

    def size(self): return self.start(None)


def state(I_, name="s"):
    I_.type_inv = TYPE_INV
    return I_.sym("State", name)


def enum_values(name, header="src/ekf/types.hpp"):
    """enumerators of a scoped enumeration with their values, read from the current source"""
    import re
    import os
    from extract import REPO
    t = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(os.path.join(REPO, header)).read(), flags=re.S)
    m = re.search(r"enum\s+(?:class\s+)?" + name + r"\b[^{]*\{([^}]*)\}", t)
    out, n = {}, 0
    for x in m.group(1).split(","):
        x = x.strip()
        if x:
            a, _, v = x.partition("=")
            n = int(v, 0) if v.strip() else n
            out[a.strip()] = n
            n += 1
    return out
