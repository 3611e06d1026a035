"""Assumed contracts of the libraries the code calls (Eigen, std, OpenCV value types).
Everything in this file is trusted: it is the written-down meaning of the library calls, checked
against the real libraries by the replay harness (which runs the same contracts on the compiled code)."""
from fractions import Fraction as Fr
from terms import *
from interp import *

TRUSTED = {
    "Eigen::Matrix": "exact real arithmetic; block/segment/diagonal/transpose/product/sum/cwise operations as defined by linear algebra",
    "Eigen::MatrixBase::inverse": "for an invertible argument A, A*inv = inv*A = I",
    "Eigen::HouseholderQR": "A = Q*R, Q orthogonal, R upper triangular",
    "Eigen::JacobiSVD": "A = U*S*V', U and V orthogonal",
    "Eigen::Quaternion": "Hamilton product, conjugate inverse of a unit quaternion, rotation matrix formula; slerp end points and unit norm",
    "Eigen::AngleAxis": "quaternion (cos(a/2), sin(a/2)*axis); from a quaternion: angle = 2*atan2(|v|,|w|), axis = +-v/|v|",
    "std::vector/std::map": "sequence / ordered finite map semantics; no aliasing between elements",
    "Eigen::Spline": "column k of the derivatives is the k-th derivative of the curve by its parameter",
    "std::normal_distribution/uniform_real_distribution": "mean + deviation * draw, lower + (upper - lower) * draw; draws at different places of the generator's sequence are independent, of unit variance (uniform: in [0,1))",
    "libm": "sin, cos, tan, sqrt, atan2, acos, pow, floor, ceil, fabs as the real functions",
}


def val(I_, x):
    return I_.load(x) if isinstance(x, LV) else x


def isM(x): return isinstance(x, Mx)


def mfresh(I_, tag, r, c):
    return mvar(f"{tag}{fresh('u', 'I').args[0]}", r, c)


def log_event(I_, kind, *info):
    I_.events.append((kind,) + info)


# ------------------------------------------------------------------ helper: norms
def vnorm2(m):
    d = dims(m)
    if d is not None and d[0] * d[1] <= 36:
        s = R(0)
        for row in dense(m):
            for x in row:
                s = add(s, mul(x, x))
        return s
    return elem(mmul(mtr(m), m), 0, 0)


def vdot(a, b):
    s = R(0)
    n = pyint(a.r)
    if n is None:
        n = pyint(b.r)
    if n is None:
        return elem(mmul(mtr(a), b), 0, 0)
    for k in range(n):
        s = add(s, mul(elem(a, k, 0), elem(b, k, 0)))
    return s


def powv(a, b):
    if isc(b):
        e = Fr(cv(b))
        if e.denominator == 1 and 0 <= e <= 8:
            return powi(toreal(a), int(e))
        if e.denominator == 2 and e > 0 and e < 9:
            s = fn("sqrt", a)
            return mul(powi(toreal(a), int(e.numerator // 2)), s)
        if e.denominator == 1 and -8 <= e < 0:
            return div(R(1), powi(toreal(a), int(-e)))
    return fn("powr", a, b)


def trace(m):
    n = pyint(m.r)
    if n is None:
        raise Unsupported("trace of a dynamic matrix")
    s = R(0)
    for k in range(n):
        s = add(s, elem(m, k, k))
    return s


def det2(m):
    d = dims(m)
    if d == (2, 2):
        return elem(m, 0, 0) * elem(m, 1, 1) - elem(m, 0, 1) * elem(m, 1, 0)
    if d == (3, 3):
        a = dense(m)
        return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
                + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))
    raise Unsupported("determinant")


# ------------------------------------------------------------------ maps
def map_pos(I_, m, key):
    """(exists?, position) of key in the map m; branches when unknown"""
    key = lift(key)
    if key in m.known:
        return True, m.known[key]
    ins = getattr(m, "inserted", None)
    if ins:
        b, r, kterm, v = ins
        if I_.branch(eq(key, kterm)):
            return True, r
        ex, p = map_pos(I_, b, key)
        if not ex:
            return False, None
        q = p if I_.branch(lt(p, r)) else add(p, I(1))
        return True, q
    z = I_.P.feasible
    probe = m.key(var("probe!k", "I"))
    if probe.op == "app" and probe.args[-1] is not var("probe!k", "I"):
        probe = TRUE            # the keys are selected from another map's
    if probe.op == "app" and key.op == "app" and key.args[0] == probe.args[0]:
        p = key.args[-1]
        return True, p
    if isc(m.n) and cv(m.n) == 0:
        return False, None
    if probe.op != "app":
        raise Unsupported("lookup in an updated map")
    tag = probe.args[0]
    has, pos, rank = app("has:" + tag, (key,), "B"), app("pos:" + tag, (key,), "I"), app("rank:" + tag, (key,), "I")
    qs = I_.P.__dict__.setdefault("map_queries", {}).setdefault(tag, [])
    if (key, has, rank) not in qs:
        qs.append((key, has, rank))
        install_map_axioms(I_, m, tag)
    if I_.branch(has):
        I_.assume(le(I(0), pos))
        I_.assume(lt(pos, m.n))
        I_.assume(eq(m.key(pos), key))
        return True, pos
    I_.assume(le(I(0), rank))
    I_.assume(le(rank, m.n))
    return False, None


def install_map_axioms(I_, m, tag):
    P = I_.P
    if ("mapax", tag) in P.counts:
        return
    P.counts[("mapax", tag)] = 1
    old = P.axioms.get(tag)
    n = m.n
    def ax(ts):
        out = list(old(ts)) if old else []
        for (key, has, rank) in P.map_queries[tag]:
            for t in ts:
                i = t.args[-1]
                out.append(implies(and_(not_(has), le(I(0), i), lt(i, n)),
                                   and_(implies(lt(i, rank), lt(t, key)), implies(le(rank, i), lt(key, t)))))
        return out
    P.axioms[tag] = ax
    P.hooks.setdefault("has:" + tag, lambda env, k: k % 3 == 1 and (k - 1) // 3 < env.ev(n))
    P.hooks.setdefault("pos:" + tag, lambda env, k: (k - 1) // 3)
    P.hooks.setdefault("rank:" + tag, lambda env, k: sum(1 for i in range(env.ev(n)) if 3 * i + 1 < k))


def map_rank(I_, m, key):
    """rank of an absent key"""
    ins = getattr(m, "inserted", None)
    if isc(m.n) and cv(m.n) == 0:
        return I(0)
    if ins:
        b, r, kterm, v = ins
        rb = map_rank(I_, b, key)
        return add(rb, ite(lt(kterm, key), I(1), I(0)))
    probe = m.key(var("probe!k", "I"))
    return app("rank:" + probe.args[0], (key,), "I")


def map_index(I_, lv, key):
    """operator[]"""
    m = I_.load(lv)
    if isinstance(m, Opaque):
        return Opaque(m.tag + "[]")
    ex, p = map_pos(I_, m, key)
    if ex:
        return lv.ext(("kv", p))
    v = m.default() if m.default else Opaque("default")
    r = map_rank(I_, m, key)
    nm = m.insert(r, key, v)
    I_.put(lv, nm)
    return lv.ext(("kv", r))


# ------------------------------------------------------------------ text
def tostr(I_, x):
    if isinstance(x, Str):
        return x
    if isinstance(x, E):
        return Str((("num", x),))
    if isinstance(x, Mx):
        return Str((("vec", x),))
    return Str((("opq", getattr(x, "tag", "?")),))


# ------------------------------------------------------------------ free functions
def free_call(I_, e):
    fn_ = e["fn"]
    name = fn_.split("::")[-1]
    I_.libcalls.add(fn_.split("<")[0])
    a = [I_.evx(x) for x in e["a"]]
    if fn_ == "__assert_fail":
        raise AbortPath("assert")
    if name in ("Zero", "Identity", "UnitX", "UnitY", "UnitZ", "Ones", "Constant", "Random"):
        t = e.get("cls") or fn_
        d = static_dims(fn_)
        v = [val(I_, x) for x in a]
        r, c = d if d else (-1, -1)
        if name == "Constant":
            k = v[-1]
            v = v[:-1]
        if len(v) == 2:
            rr, cc = v
        elif len(v) == 1:
            rr, cc = (v[0], I(1)) if c == 1 else (I(1), v[0])
        else:
            rr, cc = I(r), I(c)
        if r > 0:
            rr = I(r)
        if c > 0:
            cc = I(c)
        if name == "Zero":
            return norm_small(mzero(rr, cc))
        if name == "Identity":
            return norm_small(mmk("mid", (), rr, cc)) if rr is cc else norm_small(identity(rr, cc))
        if name == "Ones":
            return norm_small(mmk("mconst", (R(1),), rr, cc))
        if name == "Constant":
            return norm_small(mmk("mconst", (toreal(k),), rr, cc))
        if name.startswith("Unit"):
            return vec(*[1 if ch == name[-1] else 0 for ch in "XYZ"])
        return mfresh(I_, "havoc", rr, cc)
    v = [val(I_, x) for x in a]
    if any(isinstance(x, Opaque) for x in v) and name not in ("make_shared", "sort", "swap", "move", "forward"):
        return opq_free(I_, name, v, a)
    if name in ("sin", "cos", "tan", "sqrt", "acos", "asin", "atan", "exp", "log", "atan2", "fmod"):
        return fn(name, *v)
    if name in ("floor", "ceil"):
        x = toreal(v[0])
        k = floori(x) if name == "floor" else neg(floori(neg(x)))
        return toreal(k) if not isc(x) else R(int(cv(x) // 1) if name == "floor" else -int((-cv(x)) // 1))
    if name == "round":
        x = toreal(v[0])
        half = R(Fr(1, 2))
        return ite(le(R(0), x), toreal(floori(add(x, half))), neg(toreal(floori(add(neg(x), half)))))
    if name in ("abs", "fabs"):
        return abs_(v[0])
    if name == "pow":
        return powv(v[0], v[1])
    if name in ("max", "min"):
        x, y = v
        if x.sort != y.sort:
            x, y = toreal(x), toreal(y)
        c = lt(x, y)
        return ite(c, y, x) if name == "max" else ite(lt(y, x), y, x)
    if name in ("isnan", "isinf"):
        return FALSE
    if name == "isfinite":
        return TRUE
    if name == "to_string":
        return tostr(I_, v[0])
    if name == "modf":
        x = v[0]
        ip = toreal(toint(x))
        if isinstance(v[1], Ptr):
            I_.put(v[1].lv, ip)
        return sub(x, ip)
    if name in ("move", "forward", "ref", "cref"):
        return a[0]
    if name == "swap":
        I_.put(a[0], v[1])
        I_.put(a[1], v[0])
        return None
    if name == "duration_cast":
        return v[0]
    if name == "now":
        return Opaque("time")
    if name == "make_shared":
        t = e["ta"][0] if e.get("ta") else ""
        return make_obj(I_, t, a, v)
    if name == "setprecision":
        return Str()
    if name == "norm" and len(v) == 1 and isinstance(v[0], Obj):
        o = v[0]
        return fn("sqrt", mul(toreal(o.f["x"]), toreal(o.f["x"])) + mul(toreal(o.f["y"]), toreal(o.f["y"])))
    if name == "next" or name == "prev":
        it = v[0]
        d = v[1] if len(v) > 1 else I(1)
        return Iter(it.cont, add(it.pos, d) if name == "next" else sub(it.pos, d))
    return opq_free(I_, name, v, a)


def make_obj(I_, t, a, v):
    t = strip(t)
    if t in I_.prog.records:
        f = None
        for g in I_.prog.by_name.get(f"{t}::{t.split('::')[-1]}", []):
            if len(g["ps"]) >= len(a):
                f = g
                break
        if f is not None:
            lv = I_.alloc(Obj(t, {}))
            I_.run_ctor(f, lv, I_.match_args(f, a))
        else:
            lv = I_.alloc(I_.obj_construct(t, [], None))
        return Ptr(lv, "heap:" + t)
    return Opaque("heap:" + t)


def opq_free(I_, name, v, a):
    """unmodelled library call: result unknown, arguments passed by reference become unknown"""
    c = I_.contracts.get("lib:" + name)
    if c:
        I_.libcalls.add(name)
        return c(I_, None, a, name)
    log_event(I_, "lib", name, tuple(v))
    if name in ("projectPoints", "Rodrigues", "convexHull", "findFundamentalMat", "estimatePoseBoard", "detectMarkers",
                "estimatePoseCharucoBoard", "interpolateCornersCharuco", "cvtColor", "resize"):
        raise Unsupported("library call " + name)
    return Opaque("call:" + name)


def identity(r, c):
    bi, bj = var("bi", "I"), var("bj", "I")
    return mmk("mfn", (bi, bj, ite(eq(bi, bj), R(1), R(0))), r, c)


def static_dims(fn_):
    m = re.search(r"Eigen::Matrix<double, (-?\d+), (-?\d+)", fn_)
    return (int(m.group(1)), int(m.group(2))) if m else None


def call_indirect(I_, e):
    raise Unsupported("indirect call")


def spline_derivative(ov, u, k):
    """k-th derivative of a spline curve at parameter u"""
    return vec(*[app(f"spline.{ov.tag}.{k}.{c}", [u], "R") for c in range(3)])


def opaque_call(I_, e, ov, args):
    v = [val(I_, x) for x in args]
    if e.get("name") == "derivatives" and "Spline" in (e.get("fn") or "") and len(v) == 2:
        n = pyint(v[1])
        if n is None:
            raise Unsupported("spline derivatives of symbolic order")
        return norm_small(mdense([[elem(spline_derivative(ov, v[0], k), c, 0) for k in range(n + 1)] for c in range(3)]))
    c = I_.contracts.get("lib:" + str(e.get("name")))
    if c:
        I_.libcalls.add(e["name"])
        return c(I_, ov, args, e)
    log_event(I_, "opq", ov.tag, e.get("name"), tuple(v))
    t = strip(e.get("t", "void"))
    if t == "void":
        return None
    if t in FLOATS:
        return fresh("havoc", "R")
    if t in INTS:
        return fresh("havoc", "I")
    if t == "bool":
        return fresh("havoc", "B")
    return Opaque(ov.tag + "." + str(e.get("name")))


# ------------------------------------------------------------------ member functions
def targs(e):
    return [int(x) for x in e.get("ta", []) if re.match(r"^-?\d+$", str(x))]


def sub_block(I_, o, i, j, r, c):
    m = val(I_, o)
    i, j, r, c = lift(i), lift(j), lift(r), lift(c)
    if isinstance(o, LV):
        if m.op not in ("mv",) or True:
            I_.bounds(m, i, j, r, c)
        return o.ext(("mb", i, j, r, c))
    I_.bounds(m, i, j, r, c)
    return mblk(m, i, j, r, c)


def member_call(I_, e):
    name = e["name"]
    o = I_.evx(e["o"])
    if isinstance(o, LV):
        t = I_.load(o)
        if isinstance(t, Ptr) and name not in ("get", "use_count", "reset"):
            o = t.lv
    elif isinstance(o, Ptr) and name not in ("get", "reset"):
        o = o.lv
    a = [I_.evx(x) for x in e["a"]]
    v = [val(I_, x) for x in a]
    ov = val(I_, o)
    I_.libcalls.add((e.get("fn") or name).split("<")[0] + "::" + name)
    if isinstance(ov, Opaque):
        if name == "count" and "chrono" in (e.get("fn") or ""):
            return fresh("havoc_time", "I")
        if name in ("size", "rows", "cols"):
            return fresh("havoc", "I")
        return opaque_call(I_, e, ov, a)
    if isM(ov):
        if name in ("colwise", "rowwise"):
            return Partial(name, ov)
        return matrix_call(I_, e, name, o, ov, a, v)
    if isinstance(ov, Partial):
        return partial_call(I_, name, ov, v)
    if isinstance(ov, Quat):
        return quat_call(I_, e, name, o, ov, v)
    if isinstance(ov, Seq):
        return seq_call(I_, e, name, o, ov, a, v)
    if isinstance(ov, Map):
        return map_call(I_, e, name, o, ov, a, v)
    if isinstance(ov, AngleAxis):
        if name == "angle":
            return ov.angle
        if name == "axis":
            return ov.axis
        if name == "toRotationMatrix":
            return qmat(aa_quat(ov))
    if isinstance(ov, Str):
        if name in ("str", "c_str"):
            return ov
        if name in ("append", "push_back"):
            n = ov.cat(tostr(I_, v[0]))
            if isinstance(o, LV):
                I_.put(o, n)
            return n
        if name in ("size", "length"):
            return fresh("havoc", "I")
        if name == "empty":
            return B(False) if any(i[0] == "lit" and i[1] for i in ov.items) else (TRUE if not ov.items else fresh("havoc", "B"))
        if name == "clear":
            I_.put(o, Str())
            return None
        raise Unsupported("string." + name)
    if isinstance(ov, Affine):
        if name in ("linear", "translation"):
            s = ("aff", "lin" if name == "linear" else "tr")
            return o.ext(s) if isinstance(o, LV) else (ov.lin if name == "linear" else ov.tr)
        if name == "rotation":
            return ov.lin
        if name == "setIdentity":
            I_.put(o, Affine(norm_small(mid(3)), vec(0, 0, 0)))
            return o
        if name == "inverse":
            raise Unsupported("affine inverse")
    if isinstance(ov, QRdec):
        if name == "householderQ":
            return mmk("mqrq", (ov.m,), ov.m.r, ov.m.r)
        if name == "matrixQR":
            return mmk("mqrpacked", (ov.m,), ov.m.r, ov.m.c)
        if name == "solve":
            b = v[0]
            I_.__dict__.setdefault("solves", []).append((ov.m, b))
            return solve(I_, ov.m, b)
        if name in ("matrixU", "matrixV"):
            return mmk("msvd" + name[-1].lower(), (ov.m,), ov.m.r, ov.m.r)
    if isinstance(ov, Obj) and ov.cls == "JacobiRotation":
        if name == "makeGivens":
            c, s = givens(I_, toreal(v[0]), toreal(v[1]))
            I_.put(o, Obj("JacobiRotation", {"c": c, "s": s}))
            return None
        if name in ("adjoint", "transpose"):
            return Obj("JacobiRotation", {"c": ov.f["c"], "s": neg(ov.f["s"])})
        if name in ("c", "s"):
            return o.ext(("f", name)) if isinstance(o, LV) else ov.f[name]
    if isinstance(ov, BoolMx):
        i, j = var("any!i", "I"), var("any!j", "I")
        rng = [x for x, n in ((and_(le(I(0), i), lt(i, ov.r)), ov.r), (and_(le(I(0), j), lt(j, ov.c)), ov.c)) if n is not I(1)]
        ii, jj = I(0) if ov.r is I(1) else i, I(0) if ov.c is I(1) else j
        def every(b):
            f = implies(and_(*rng), b)
            for x, n in ((j, ov.c), (i, ov.r)):
                if n is not I(1):
                    f = mk("forall", (x, f), "B")
            return f
        if name == "any":
            return not_(every(not_(ov.at(ii, jj))))
        if name == "all":
            return every(ov.at(ii, jj))
        if name in ("array", "matrix", "eval"):
            return ov
    if isinstance(ov, E):
        if name == "count":
            return ov
    if isinstance(ov, Obj) and name.startswith("operator Point_"):
        return Opaque("point")          # OpenCV's conversion between kinds of points
    raise Unsupported(f"member {name} on {type(ov).__name__}")


class BoolMx:
    """matrix of truth values"""

    def __init__(self, r, c, at):
        self.r, self.c, self.at = r, c, at


def givens(I_, p, q):
    """JacobiRotation::makeGivens: a rotation whose adjoint maps (p, q) to (r, 0)"""
    def ax(ts):
        out = []
        for t in ts:
            p, q = t.args[1:]
            c, s = app("givens_c", (p, q), "R"), app("givens_s", (p, q), "R")
            out += [eq(add(mul(c, c), mul(s, s)), R(1)), eq(add(mul(s, p), mul(c, q)), R(0))]
        return out
    I_.P.axioms.setdefault("givens_c", ax)
    I_.P.axioms.setdefault("givens_s", ax)
    def hk(k):
        def h(env, p, q):
            r = math.hypot(p, q)
            c, s = (p / r, -q / r) if r > 0 else (1.0, 0.0)
            return s if k else c
        return h
    I_.P.hooks["givens_c"], I_.P.hooks["givens_s"] = hk(0), hk(1)
    return app("givens_c", (p, q), "R"), app("givens_s", (p, q), "R")


def rotate_rows(I_, o, m, p, q, c, s):
    """applyOnTheLeft(p, q, [c s; -s c]): rows p and q become c p + s q and -s p + c q"""
    bi, bj = var("bi", "I"), var("bj", "I")
    I_.bounds(m, p, I(0), I(1), m.c)
    I_.bounds(m, q, I(0), I(1), m.c)
    x, y = elem(m, p, bj), elem(m, q, bj)
    new = mmk("mfn", (bi, bj, ite(eq(bi, p), add(mul(c, x), mul(s, y)), ite(eq(bi, q), sub(mul(c, y), mul(s, x)), elem(m, bi, bj)))), m.r, m.c)
    I_.put(o, norm_small(new))


def solve(I_, A, b):
    """x with A*x = b (A invertible): fresh vector with the defining equation recorded as a ring fact"""
    if getattr(I_, "fresh_solve", False):
        x = mdense([[fresh("solved", "R") for _ in range(pyint(b.c))] for _ in range(pyint(A.c))])
        I_.events.append(("solve", A, b, x))
        return x
    return norm_small(mmul(minv(A), b))


class Partial:
    """m.colwise() / m.rowwise()"""
    def __init__(self, kind, m):
        self.kind, self.m = kind, m


def partial_call(I_, name, pv, v):
    m = pv.m if pv.kind == "colwise" else mtr(pv.m)
    bi, bj = var("bi", "I"), var("bj", "I")
    if name in ("squaredNorm", "norm"):
        g = elem(mmul(mtr(m), m), bj, bj)
        r = mmk("mfn", (bi, bj, g if name == "squaredNorm" else fn("sqrt", g)), I(1), m.c)
    else:
        raise Unsupported("partial " + name)
    r = norm_small(r)
    return r if pv.kind == "colwise" else mtr(r)


def matrix_call(I_, e, name, o, m, a, v):
    ta = targs(e)
    if name in ("rows",):
        return m.r
    if name == "cols":
        return m.c
    if name == "size":
        if m.c is I(1):
            return m.r
        if m.r is I(1):
            return m.c
        return mul(m.r, m.c)
    if name == "block":
        if len(v) == 4:
            return sub_block(I_, o, *v)
        return sub_block(I_, o, v[0], v[1], ta[0], ta[1])
    if name == "segment":
        col = not (m.r is I(1) and m.c is not I(1))
        n = v[1] if len(v) > 1 else I(ta[0])
        return sub_block(I_, o, v[0], 0, n, 1) if col else sub_block(I_, o, 0, v[0], 1, n)
    if name in ("head", "tail"):
        n = v[0] if v else I(ta[0])
        return sub_block(I_, o, 0 if name == "head" else sub(m.r, n), 0, n, 1)
    if name in ("col", "row"):
        return sub_block(I_, o, 0, v[0], m.r, 1) if name == "col" else sub_block(I_, o, v[0], 0, 1, m.c)
    if name in ("topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner"):
        r, c = (v[0], v[1]) if len(v) == 2 else (I(ta[0]), I(ta[1]))
        return sub_block(I_, o, 0 if "top" in name else sub(m.r, r), 0 if "Left" in name else sub(m.c, c), r, c)
    if name in ("topRows", "bottomRows", "leftCols", "rightCols", "middleRows", "middleCols"):
        n = v[-1] if v else I(ta[0])
        if name == "middleRows":
            n = v[1] if len(v) > 1 else I(ta[0])
            return sub_block(I_, o, v[0], 0, n, m.c)
        if name == "middleCols":
            n = v[1] if len(v) > 1 else I(ta[0])
            return sub_block(I_, o, 0, v[0], m.r, n)
        if "Rows" in name:
            return sub_block(I_, o, 0 if name == "topRows" else sub(m.r, n), 0, n, m.c)
        return sub_block(I_, o, 0, 0 if name == "leftCols" else sub(m.c, n), m.r, n)
    if name in ("x", "y", "z", "w"):
        k = "xyzw".index(name)
        return o.ext(("me", I(k), I(0))) if isinstance(o, LV) else elem(m, k, 0)
    if name in ("coeff", "coeffRef"):
        return index_matrix(I_, o, m, v)
    if name == "transpose" or name == "adjoint":
        return mtr(m)
    if name == "transposeInPlace":
        I_.put(o, mtr(m))
        return None
    if name in ("eval", "matrix", "array", "noalias", "derived", "selfadjointView"):
        return o
    if name == "inverse":
        log_event(I_, "inverse", m)
        return minv_small(m)
    if name == "norm":
        return fn("sqrt", vnorm2(m))
    if name == "squaredNorm":
        return vnorm2(m)
    if name == "normalized":
        return mscale(div(R(1), fn("sqrt", vnorm2(m))), m)
    if name == "normalize":
        I_.put(o, mscale(div(R(1), fn("sqrt", vnorm2(m))), m))
        return None
    if name == "dot":
        return vdot(m, v[0])
    if name == "cross":
        return cross(m, v[0])
    if name == "cwiseProduct":
        return norm_small(mmk("mcwmul", (m, v[0]), m.r, m.c))
    if name == "cwiseAbs2":
        return norm_small(mmk("mcwmul", (m, m), m.r, m.c))
    if name in ("cwiseMin", "cwiseMax") and len(v) == 1:
        bi, bj = var("bi", "I"), var("bj", "I")
        x, y = elem(m, bi, bj), elem(v[0], bi, bj) if isM(v[0]) else toreal(v[0])
        return norm_small(mmk("mfn", (bi, bj, ite(lt(y, x) if name == "cwiseMin" else lt(x, y), y, x)), m.r, m.c))
    if name == "cwiseSqrt":
        return norm_small(mmk("mcw", ("sqrt", m), m.r, m.c))
    if name == "applyOnTheLeft" and len(v) == 3 and isinstance(v[2], Obj) and v[2].cls == "JacobiRotation" and isinstance(o, LV):
        rotate_rows(I_, o, m, v[0], v[1], v[2].f["c"], v[2].f["s"])
        return None
    if name in ("cwiseAbs", "abs"):
        bi, bj = var("bi", "I"), var("bj", "I")
        return norm_small(mmk("mfn", (bi, bj, abs_(elem(m, bi, bj))), m.r, m.c))
    if name == "asDiagonal":
        return norm_small(mdiagv(m))
    if name == "diagonal":
        if isinstance(o, LV):
            return o.ext(("mdiag",))
        return norm_small(mmk("mdiagof", (m,), m.r, I(1)))
    if name == "trace":
        return trace(m)
    if name == "determinant":
        return det2(m)
    if name == "sum":
        d = dense(m)
        if d is None:
            raise Unsupported("sum of a dynamic matrix")
        s = R(0)
        for row in d:
            for x in row:
                s = add(s, x)
        return s
    if name in ("setZero", "setIdentity", "setOnes"):
        r, c = (v + [m.r, m.c])[:2] if len(v) == 2 else ((v[0], I(1)) if len(v) == 1 else (m.r, m.c))
        nv = {"setZero": mzero(r, c), "setIdentity": mmk("mid", (), r, c), "setOnes": mmk("mconst", (R(1),), r, c)}[name]
        I_.put(o, norm_small(nv))
        return o
    if name in ("fill", "setConstant"):
        I_.put(o, norm_small(mmk("mconst", (toreal(v[-1]),), m.r, m.c)))
        return o
    if name == "resize":
        r, c = v if len(v) == 2 else (v[0], I(1))
        I_.put(o, I_.eig_construct((-1, -1), [r, c]) if not (r is m.r and c is m.c) else m)
        return None
    if name == "conservativeResize":
        r, c = v if len(v) == 2 else (v[0], I(1))
        I_.side.append(("conservativeResize does not grow", and_(le(r, m.r), le(c, m.c)), list(I_.pc)))
        I_.put(o, mblk(m, 0, 0, r, c))
        return None
    if name == "triangularView":
        # upper part of the packed QR matrix = R factor
        src, r, c = m, m.r, m.c
        if m.op == "mblk" and m.args[0].op == "mqrpacked" and m.args[1] is I(0) and m.args[2] is I(0):
            A = m.args[0].args[0]
            if r is c and c is A.c:
                parts = vparts(A)
                return mmk("mqr", tuple(parts), r, c)
        bi, bj = var("bi", "I"), var("bj", "I")
        return norm_small(mmk("mfn", (bi, bj, ite(le(bi, bj), elem(m, bi, bj), R(0))), r, c))
    if name in ("colPivHouseholderQr", "householderQr", "fullPivLu", "partialPivLu", "ldlt", "llt", "fullPivHouseholderQr", "lu"):
        return QRdec(m, name)
    if name in ("minCoeff", "maxCoeff"):
        d = dense(m)
        if d is None:
            raise Unsupported(name)
        xs = [x for row in d for x in row]
        r = xs[0]
        for x in xs[1:]:
            r = ite(lt(x, r), x, r) if name == "minCoeff" else ite(lt(r, x), x, r)
        return r
    if name in ("operator()", "at"):
        return index_matrix(I_, o, m, v)
    if name == "isZero":
        raise Unsupported("isZero")
    if name == "data":
        return Opaque("data")
    raise Unsupported("matrix." + name)


def vparts(A):
    """vertical concatenation as a list of parts"""
    if A.op == "mvcat":
        return vparts(A.args[0]) + vparts(A.args[1])
    return [A]


def minv_small(m):
    d = dims(m)
    if d == (3, 3) or d == (2, 2):
        dt = det2(m)
        a = dense(m)
        if d == (2, 2):
            return mscale(div(R(1), dt), mdense([[a[1][1], neg(a[0][1])], [neg(a[1][0]), a[0][0]]]))
    return minv(m)


def index_matrix(I_, o, m, v):
    if len(v) == 2:
        i, j = v
    elif m.c is I(1) or pyint(m.c) == 1:
        i, j = v[0], I(0)
    elif m.r is I(1):
        i, j = I(0), v[0]
    else:
        raise Unsupported("linear index into a matrix")
    I_.bounds(m, i, j, I(1), I(1))
    if isinstance(o, LV):
        return o.ext(("me", i, j))
    return elem(m, i, j)


def quat_call(I_, e, name, o, q, v):
    if name in "wxyz" and len(name) == 1:
        return o.ext(("q", name)) if isinstance(o, LV) else getattr(q, name)
    if name == "vec":
        return o.ext(("qv",)) if isinstance(o, LV) else vec(q.x, q.y, q.z)
    if name == "coeffs":
        return vec(q.x, q.y, q.z, q.w)
    if name == "inverse":
        return qinv(q)
    if name == "conjugate":
        return qconj(q)
    if name in ("toRotationMatrix", "matrix"):
        m = qmat(q)
        if is_unit(q):
            I_.__dict__.setdefault("qmats", []).append((m, q))
        return m
    if name == "norm":
        return R(1) if is_unit(q) else fn("sqrt", qnorm2(q))
    if name == "squaredNorm":
        return R(1) if is_unit(q) else qnorm2(q)
    if name in ("normalized", "normalize"):
        if is_unit(q):
            r = q
        else:
            n = fn("sqrt", qnorm2(q))
            r = Quat(*[div(t, n) for t in q.comps()])
        if name == "normalize":
            I_.put(o, r)
            return None
        return r
    if name == "setIdentity":
        I_.put(o, mark_unit(Quat(1, 0, 0, 0)))
        return o
    if name == "slerp":
        t, q2 = v
        args = (t,) + q.comps() + q2.comps()
        if isc(t) and cv(t) == 0:
            return q
        r = Quat(*[app("slerp_" + n, args, "R") for n in "wxyz"])
        I_.unit_quat(r)
        def mkhook(k):
            def h(env, t_, *c):
                return nslerp(t_, c[:4], c[4:])[k]
            return h
        for k, n in enumerate("wxyz"):
            I_.P.hooks["slerp_" + n] = mkhook(k)
        return r
    if name == "angularDistance":
        d = qmul(q, qinv(v[0]))
        n = fn("sqrt", d.x * d.x + d.y * d.y + d.z * d.z)
        return R(2) * fn("atan2", n, abs_(d.w))
    if name == "dot":
        return q.w * v[0].w + q.x * v[0].x + q.y * v[0].y + q.z * v[0].z
    raise Unsupported("quaternion." + name)


def nslerp(t, a, b):
    d = sum(x * y for x, y in zip(a, b))
    ad = abs(d)
    if ad >= 1 - 1e-15:
        s0, s1 = 1 - t, t
    else:
        th = math.acos(ad)
        s0, s1 = math.sin((1 - t) * th) / math.sin(th), math.sin(t * th) / math.sin(th)
    if d < 0:
        s1 = -s1
    return [s0 * x + s1 * y for x, y in zip(a, b)]


def seq_call(I_, e, name, o, s, a, v):
    if name in ("size", "length"):
        return s.n
    if name == "empty":
        return eq(s.n, I(0))
    if name in ("at",):
        I_.side.append(("index within sequence", and_(le(I(0), v[0]), lt(v[0], s.n)), list(I_.pc)))
        return o.ext(("i", v[0])) if isinstance(o, LV) else s.at(v[0])
    if name in ("front", "back"):
        I_.side.append((name + "() of a non-empty sequence", lt(I(0), s.n), list(I_.pc)))
        I_.assume(lt(I(0), s.n))
        k = I(0) if name == "front" else sub(s.n, I(1))
        return o.ext(("i", k)) if isinstance(o, LV) else s.at(k)
    if name in ("push_back", "emplace_back"):
        if name == "emplace_back" and (len(v) != 1):
            x = I_.construct(s.ety, v, None)
        else:
            x = I_.coerce(v[0], s.ety) if s.ety else v[0]
        I_.put(o, s.push(x))
        return None
    if name == "pop_back":
        I_.put(o, Seq(sub(s.n, I(1)), s.at, s.tag, s.ety))
        return None
    if name == "clear":
        I_.put(o, Seq(I(0), lambda k: I_.uninit(s.ety), "empty", s.ety))
        return None
    if name in ("reserve", "shrink_to_fit"):
        return None
    if name in ("begin", "cbegin"):
        return Iter(o, I(0))
    if name in ("end", "cend"):
        return Iter(o, s.n)
    if name == "resize":
        d = v[1] if len(v) > 1 else I_.default(s.ety)
        I_.put(o, Seq(v[0], lambda k: merge(lt(k, s.n), s.at(k), d), s.tag, s.ety))
        return None
    if name == "erase":
        it = v[0]
        if len(v) == 1:
            I_.put(o, s.erase(it.pos))
            return Iter(o, it.pos)
        p, q = v[0].pos, v[1].pos
        d = sub(q, p)
        I_.put(o, Seq(sub(s.n, d), lambda t: merge(lt(t, p), s.at(t), s.at(add(t, d))), s.tag, s.ety))
        return Iter(o, p)
    if name == "insert":
        it = v[0]
        if len(v) == 2:
            p, x = it.pos, v[1]
            I_.put(o, Seq(add(s.n, I(1)), lambda t: merge(lt(t, p), s.at(t), merge(eq(t, p), x, s.at(sub(t, I(1))))), s.tag, s.ety))
            return Iter(o, p)
        if len(v) == 3 and isinstance(v[1], Iter):
            src = I_.load(v[1].cont)
            b, c = v[1].pos, v[2].pos
            cnt, p = sub(c, b), it.pos
            I_.put(o, Seq(add(s.n, cnt), lambda t: merge(lt(t, p), s.at(t), merge(lt(t, add(p, cnt)), src.at(add(b, sub(t, p))), s.at(sub(t, cnt)))), s.tag, s.ety))
            return Iter(o, p)
        if len(v) == 3:
            cnt, x, p = v[1], v[2], it.pos
            I_.put(o, Seq(add(s.n, cnt), lambda t: merge(lt(t, p), s.at(t), merge(lt(t, add(p, cnt)), x, s.at(sub(t, cnt)))), s.tag, s.ety))
            return Iter(o, p)
    raise Unsupported("vector." + name)


def map_call(I_, e, name, o, m, a, v):
    if name == "size":
        return m.n
    if name == "empty":
        return eq(m.n, I(0))
    if name in ("find", "count", "contains", "at"):
        ex, p = map_pos(I_, m, v[0])
        if name == "find":
            return Iter(o, p) if ex else Iter(o, "end")
        if name == "at":
            if not ex:
                raise AbortPath("map::at throws")
            return o.ext(("kv", p)) if isinstance(o, LV) else m.val(p)
        return (I(1) if ex else I(0)) if name == "count" else B(ex)
    if name in ("end", "cend"):
        return Iter(o, "end")
    if name in ("begin", "cbegin"):
        return Iter(o, I(0))
    if name == "erase":
        x = v[0]
        p = x.pos if isinstance(x, Iter) else None
        if p is None:
            ex, p = map_pos(I_, m, x)
            if not ex:
                return I(0)
        nm = Map(sub(m.n, I(1)), lambda t: ite(lt(t, p), m.key(t), m.key(add(t, I(1)))),
                 lambda t: merge(lt(t, p), m.val(t), m.val(add(t, I(1)))), m.tag + "-", m.vty, m.default)
        nm.erased = (m, p)
        I_.put(o, nm)
        return I(1) if not isinstance(x, Iter) else Iter(o, p)
    if name in ("insert", "emplace"):
        raise Unsupported("map." + name)
    if name == "clear":
        I_.put(o, Map(I(0), lambda k: I(0), lambda k: m.default(), "emptymap", m.vty, m.default))
        return None
    raise Unsupported("map." + name)


# ------------------------------------------------------------------ operators
def draw(I_, dist, gen):
    """the next draw of the generator's sequence; draws of different places of a sequence are independent"""
    g = I_.load(gen)
    kind = "normal" if "normal" in dist.cls else "uniform"
    z = app("draw." + kind, (g.f["seed"], g.f["count"]), "R")
    I_.put(gen, g.set("count", add(g.f["count"], I(1))))
    import random
    if kind == "normal":
        I_.P.hooks.setdefault("draw.normal", lambda env, s, k: random.Random(f"n{s},{k}").gauss(0, 1))
        return add(dist.f["a"], mul(dist.f["b"], z))
    I_.P.axioms.setdefault("draw.uniform", lambda ts: [and_(le(R(0), t), lt(t, R(1))) for t in ts])
    I_.P.hooks.setdefault("draw.uniform", lambda env, s, k: random.Random(f"u{s},{k}").random())
    return add(dist.f["a"], mul(sub(dist.f["b"], dist.f["a"]), z))


def op_call(I_, e):
    op = e["op"]
    fn_ = e.get("fn", "")
    a = [I_.evx(x) for x in e["a"]]
    if op == "()" and isinstance(val(I_, a[0]), Lam):
        return I_.call_lambda(val(I_, a[0]), a[1:])
    I_.libcalls.add(fn_.split("<")[0] + "::operator" + op)
    if op == "=":
        x = val(I_, a[1])
        if isinstance(a[0], LV):
            old = I_.load(a[0])
            if isinstance(x, AngleAxis) and isinstance(old, Quat):
                x = aa_quat(x)
            if isinstance(old, Quat) and isinstance(x, Mx):
                x = I_.quat_from_mat(x)
            if isinstance(old, Mx) and isinstance(x, Quat):
                x = qmat(x)
            if isinstance(old, Mx) and isinstance(x, E):
                x = mdense([[x]])
            if isinstance(old, Mx) and isinstance(x, Mx) and old.c is I(1) and x.r is I(1) and x.c is not I(1):
                x = mtr(x)          # a row assigned to a column vector is transposed
            I_.put(a[0], x if not isinstance(x, list) else I_.coerce(x, e["t"]))
            return a[0]
        if isinstance(a[0], Opaque):
            return a[0]
        raise Unsupported("assignment to temporary")
    if op == "[]":
        o = a[0]
        ov = val(I_, o)
        i = val(I_, a[1])
        if isinstance(ov, Ptr):
            o, ov = ov.lv, val(I_, ov.lv)
        if isinstance(ov, Map):
            if not isinstance(o, LV):
                o = I_.alloc(ov)
            return map_index(I_, o, i)
        if isinstance(ov, Seq):
            if not getattr(I_, "no_seq_bounds", False):
                g = and_(le(I(0), i), lt(i, ov.n))
                if g is not TRUE and g not in I_.pc:
                    I_.side.append(("index within sequence", g, list(I_.pc)))
                    I_.assume(le(I(0), i))
                    I_.assume(lt(i, ov.n))
            return o.ext(("i", i)) if isinstance(o, LV) else ov.at(i)
        if isM(ov):
            return index_matrix(I_, o, ov, [i])
        if isinstance(ov, Opaque):
            return Opaque(ov.tag + "[]")
        if isinstance(ov, Obj) and "x" in ov.f:
            return o.ext(("f", "xyz"[pyint(i)]))
        raise Unsupported("operator[] on " + type(ov).__name__)
    if op == "()":
        ov = val(I_, a[0])
        v = [val(I_, x) for x in a[1:]]
        if isM(ov):
            return index_matrix(I_, a[0], ov, v)
        if isinstance(ov, Obj) and ov.cls in ("std::normal_distribution", "std::uniform_real_distribution") and len(a) == 2 and isinstance(a[1], LV):
            return draw(I_, ov, a[1])
        if isinstance(ov, Opaque):
            t = strip(e.get("t", ""))
            if t in FLOATS:
                log_event(I_, "rand", ov.tag)
                return fresh("rand", "R")
            if "Spline" in fn_ and len(v) == 1:
                return spline_derivative(ov, v[0], 0)
            return Opaque(ov.tag + "()")
        raise Unsupported("operator()")
    if op in ("*", "->") and len(a) == 1:
        ov = val(I_, a[0])
        if isinstance(ov, Ptr):
            return ov.lv if op == "*" else ov
        if isinstance(ov, Iter):
            if op == "->":
                return ov
            c = I_.load(ov.cont)
            if isinstance(c, Map):
                return ("entry", c.key(ov.pos), ov.cont.ext(("kv", ov.pos)))
            return ov.cont.ext(("i", ov.pos))
        if isinstance(ov, Opaque):
            return ov
        if isinstance(ov, Obj):         # object owned by a container
            return a[0]
    if op in ("++", "--") :
        ov = val(I_, a[0])
        if isinstance(ov, Iter):
            n = Iter(ov.cont, add(ov.pos, I(1)) if op == "++" else sub(ov.pos, I(1)))
            I_.put(a[0], n)
            return ov if len(a) > 1 else a[0]
    if op in ("+=", "-=", "*=", "/="):
        x, y = val(I_, a[0]), val(I_, a[1])
        if isinstance(x, Str):
            r = x.cat(tostr(I_, y))
        else:
            r = binary(I_, op[0], x, y)
        I_.put(a[0], r)
        return a[0]
    if op == "<<":
        x, y = val(I_, a[0]), val(I_, a[1])
        if isinstance(y, E) and y.op == "c" and strip(e["a"][1].get("t", "")) == "char":
            y = Str([("lit", chr(int(y.args[0])))])
        if isM(x):
            return comma_start(I_, a[0], x, y)
        if isinstance(x, Str):
            if isinstance(y, Opaque) and y.tag.startswith("fn:"):
                return a[0]
            n = x.cat(tostr(I_, y))
            if isinstance(a[0], LV):
                I_.put(a[0], n)
                return a[0]
            return n
        if isinstance(x, Opaque):
            log_event(I_, "out", x.tag, y)
            return a[0]
        raise Unsupported("operator<<")
    if op == ",":
        x, y = a[0], val(I_, a[1])
        if isinstance(x, tuple) and x[0] == "comma":
            return comma_next(I_, x, y)
        raise Unsupported("comma")
    if op == "bool":
        return var("opq:" + getattr(val(I_, a[0]), "tag", "?"), "B")
    v = [val(I_, x) for x in a]
    if op in ("<", ">", "<=", ">=") and len(v) == 2 and isM(v[0]) and (isM(v[1]) or isinstance(v[1], E)):
        x, y = v
        def at(i, j):
            p, q = elem(x, i, j), elem(y, i, j) if isM(y) else toreal(y)
            return {"<": lt(p, q), ">": lt(q, p), "<=": le(p, q), ">=": le(q, p)}[op]
        return BoolMx(x.r, x.c, at)
    if len(v) == 1:
        x = v[0]
        if op == "-" and isM(x):
            return mneg(x)
        if op == "+":
            return x
        if op == "!" and isinstance(x, (Opaque, Ptr)):
            return not_(var("opq:" + x.tag, "B"))
        raise Unsupported("unary operator" + op)
    return binary(I_, op, v[0], v[1])


def binary(I_, op, x, y):
    if isinstance(x, (Iter,)) and isinstance(y, (Iter,)):
        if op == "-":
            return sub(x.pos, y.pos)
        c = I_.load(x.cont)
        n = c.n
        px = n if x.pos == "end" else x.pos
        py = n if y.pos == "end" else y.pos
        r = eq(px, py)
        if op == "==":
            return r
        if op == "!=":
            return not_(r)
        if op == "<":
            return lt(px, py)
    if isinstance(x, Iter) and isinstance(y, E):
        return Iter(x.cont, add(x.pos, y) if op == "+" else sub(x.pos, y))
    if isinstance(x, Str) or isinstance(y, Str):
        if op == "+":
            return tostr(I_, x).cat(tostr(I_, y))
        if op in ("==", "!="):
            if isinstance(x, Str) and isinstance(y, Str) and x.items == y.items:
                return B(op == "==")
            lx = isinstance(x, Str) and all(i[0] == "lit" for i in x.items)
            ly = isinstance(y, Str) and all(i[0] == "lit" for i in y.items)
            if lx and ly:
                s = "".join(i[1] for i in x.items) == "".join(i[1] for i in y.items)
                return B(s == (op == "=="))
            c = var(f"streq:{x.items}=={getattr(y, 'items', '')}", "B")
            return c if op == "==" else not_(c)
    if isinstance(x, (Opaque, Ptr)) or isinstance(y, (Opaque, Ptr)):
        if op in ("==", "!="):
            tx, ty = getattr(x, "tag", "?"), getattr(y, "tag", "?")
            if tx == ty == "nullptr":
                return B(op == "==")
            if isinstance(x, Ptr) and ty == "nullptr" or isinstance(y, Ptr) and tx == "nullptr":
                return B(op == "!=")
            c = var(f"opq:{tx}=={ty}", "B")
            return c if op == "==" else not_(c)
        return Opaque("expr")
    if op == "*":
        if isinstance(x, AngleAxis):
            x = aa_quat(x)
        if isinstance(y, AngleAxis):
            y = aa_quat(y)
        if isinstance(x, Quat) and isinstance(y, Quat):
            r = qmul(x, y)
            if is_unit(x) and is_unit(y):
                mark_unit(r)
            return r
        if isinstance(x, Quat) and isM(y):
            if pyint(y.c) == 1:
                return qrot(x, y)
            return mmul(qmat(x), y)
        if isinstance(x, Affine) and isM(y):
            return madd(mmul(x.lin, y), x.tr)
        if isM(x) and isM(y):
            if (pyint(x.r), pyint(x.c)) == (1, 1) and pyint(y.r) != 1:
                return mscale(elem(x, 0, 0), y)
            if x.c is not y.r:
                g = eq(x.c, y.r)
                if g is not TRUE:
                    I_.side.append(("matrix product dimensions agree", g, list(I_.pc)))
            r = mmul(x, y)
            return r
        if isM(x) and isinstance(y, E):
            return mscale(y, x)
        if isinstance(x, E) and isM(y):
            return mscale(x, y)
        if isM(x) and isinstance(y, Quat):
            return mmul(x, qmat(y))
    if op in ("+", "-") and isM(x) and isM(y):
        if x.r is not y.r or x.c is not y.c:
            g = and_(eq(x.r, y.r), eq(x.c, y.c))
            if g is not TRUE:
                I_.side.append(("matrix sum dimensions agree", g, list(I_.pc)))
        return madd(x, y) if op == "+" else msub(x, y)
    if op == "/" and isM(x) and isinstance(y, E):
        return mscale(div(R(1), toreal(y)), x)
    if op in ("==", "!=") and isM(x) and isM(y):
        d1, d2 = dense(x), dense(y)
        if d1 is None or d2 is None:
            raise Unsupported("matrix comparison")
        r = and_(*[eq(p, q) for r1, r2 in zip(d1, d2) for p, q in zip(r1, r2)])
        return r if op == "==" else not_(r)
    if isinstance(x, Obj) and isinstance(y, Obj) and set(x.f) == set(y.f) and op in ("+", "-"):
        return Obj(x.cls, {k: (add if op == "+" else sub)(x.f[k], y.f[k]) for k in x.f})
    if isinstance(x, E) and isinstance(y, E):
        return I_.binop(op, x, y, "double" if "R" in (x.sort, y.sort) else "int")
    raise Unsupported(f"operator{op} on {type(x).__name__}, {type(y).__name__}")


def comma_start(I_, lv, m, y):
    """m << a, b, ... : fill row by row"""
    if isM(y):
        if y.c is m.c or pyint(y.c) == pyint(m.c) and pyint(y.c) is not None:
            return ("comma", lv, "rows", [y]) if not finish_rows(I_, lv, m, [y]) else ("comma", lv, "rows", [y])
        if pyint(m.c) == 1:
            raise Unsupported("comma")
        raise Unsupported("comma initialiser layout")
    vals = [y]
    finish_scal(I_, lv, m, vals)
    return ("comma", lv, "scal", vals)


def finish_rows(I_, lv, m, parts):
    r = parts[0]
    for p in parts[1:]:
        r = mmk("mvcat", (r, p), add(r.r, p.r), r.c)
    if r.r is m.r:
        I_.put(lv, norm_small(r))
        return True
    return False


def finish_scal(I_, lv, m, vals):
    d = dims(m)
    if d is None:
        raise Unsupported("comma initialiser of a dynamic matrix")
    if len(vals) == d[0] * d[1]:
        I_.put(lv, mdense([[vals[i * d[1] + j] for j in range(d[1])] for i in range(d[0])]))


def comma_next(I_, st, y):
    _, lv, kind, vals = st
    vals = vals + [y]
    m = I_.load(lv)
    if kind == "rows":
        finish_rows(I_, lv, m, vals)
    else:
        if isM(y):
            raise Unsupported("mixed comma initialiser")
        finish_scal(I_, lv, m, vals)
    return ("comma", lv, kind, vals)
