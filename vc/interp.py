"""Symbolic execution of the typed AST printed by vcx.  One function at a time: a callee that has
a contract is replaced by it (precondition = obligation, postcondition = assumed); a callee without
one is inlined.  Values are immutable, the store maps locations to values."""
import re
import time
from fractions import Fraction as Fr
from terms import *
from prove import GiveUp, Prover


class Unsupported(Exception):
    pass


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class AbortPath(Exception):
    """assertion failure / infeasible path"""


# ------------------------------------------------------------------ values
class Quat:
    __slots__ = ("w", "x", "y", "z")

    def __init__(self, w, x, y, z):
        self.w, self.x, self.y, self.z = [toreal(lift(t)) for t in (w, x, y, z)]

    def comps(self): return (self.w, self.x, self.y, self.z)
    def __repr__(self): return f"Quat{self.comps()}"


class Obj:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def get(self, n): return self.f[n]

    def set(self, n, v):
        d = dict(self.f)
        d[n] = v
        return Obj(self.cls, d)

    def __repr__(self): return f"{self.cls}{self.f}"


class Seq:
    """std::vector / array: length and element function (python closure over an index term)"""

    def __init__(self, n, elt, tag="", ety=""):
        self.n, self._elt, self.tag, self.ety = lift(n), elt, tag, ety
        self.cache = {}
        self.pushed_from = None      # the sequence this one was made of by push_back

    def at(self, k):
        k = lift(k)
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = self._elt(k)
        return r

    def set(self, k, v):
        k = lift(k)
        b = self
        def elt(t):
            c = eq(t, k)
            if c is TRUE:
                return v
            if c is FALSE:
                return b.at(t)
            return merge(c, v, b.at(t))
        r = Seq(self.n, elt, self.tag, self.ety)
        if b.pushed_from is not None and k is b.pushed_from.n:
            r.pushed_from = b.pushed_from
        return r

    def push(self, v):
        b, n = self, self.n
        def elt(t):
            c = eq(t, n)
            if c is TRUE:
                return v
            if c is FALSE or n is I(0) and False:
                return b.at(t)
            return merge(c, v, b.at(t)) if not (isc(n) and cv(n) == 0) else v
        r = Seq(add(n, I(1)), elt, self.tag, self.ety)
        r.pushed_from = b
        return r

    def erase(self, p):
        p = lift(p)
        b = self
        return Seq(sub(self.n, I(1)), lambda t: merge(lt(t, p), b.at(t), b.at(add(t, I(1)))), self.tag, self.ety)

    @staticmethod
    def of(xs, ety=""):
        def elt(t):
            p = pyint(t)
            if p is not None:
                if 0 <= p < len(xs):
                    return xs[p]
                raise AbortPath("index out of range of literal sequence")
            r = xs[-1]
            for i in reversed(range(len(xs) - 1)):
                r = merge(eq(t, I(i)), xs[i], r)
            return r
        return Seq(I(len(xs)), elt, "lit", ety)


class Map:
    """std::map<unsigned, T>: positions 0..n-1 in key order; key(k), val(k)"""

    def __init__(self, n, key, val, tag, vty, default=None):
        self.n, self.key, self._val, self.tag, self.vty, self.default = lift(n), key, val, tag, vty, default
        self.cache = {}
        self.known = {}       # key term -> position term

    def val(self, k):
        k = lift(k)
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = self._val(k)
        return r

    def copyinfo(self, o):
        o.known = dict(self.known)
        if hasattr(self, "inserted"):
            o.inserted = self.inserted      # keys only: values may have been assigned since
        return o

    def set(self, k, v):
        k = lift(k)
        b = self
        def val(t):
            c = eq(t, k)
            if c is TRUE:
                return v
            if c is FALSE:
                return b.val(t)
            return merge(c, v, b.val(t))
        return self.copyinfo(Map(self.n, self.key, val, self.tag, self.vty, self.default))

    def insert(self, rank, kterm, v):
        """insert at position rank"""
        b = self
        r = lift(rank)
        def key(t):
            return ite(lt(t, r), b.key(t), ite(eq(t, r), kterm, b.key(sub(t, I(1)))))
        def val(t):
            if t is r:
                return v
            return merge(lt(t, r), b.val(t), merge(eq(t, r), v, b.val(sub(t, I(1)))))
        m = Map(add(self.n, I(1)), key, val, self.tag + "+", self.vty, self.default)
        m.known = {kterm: r}
        m.inserted = (b, r, kterm, v)
        return m


class Opaque:
    def __init__(self, tag, info=None):
        self.tag, self.info = tag, info

    def __repr__(self): return f"<{self.tag}>"


class Lam:
    """a lambda: its node, the frame it was made in, copies of what it captures by value"""

    def __init__(self, node, frame, copies):
        self.node, self.frame, self.copies = node, frame, copies


class Str:
    """text as a list of items: ('lit', s) ('num', E) ('hdr', name, n) ('vec', Mx) ('quat', Quat) ('opq', tag)"""

    def __init__(self, items=()):
        self.items = tuple(items)

    def cat(self, o): return Str(self.items + o.items)


class Ptr:
    """pointer / shared_ptr / iterator-like handle"""

    def __init__(self, lv, tag=""):
        self.lv, self.tag = lv, tag


class Iter:
    """iterator into a container location at a position (None = unknown)"""

    def __init__(self, cont, pos):
        self.cont, self.pos = cont, pos


class AngleAxis:
    def __init__(self, angle, axis):
        self.angle, self.axis = angle, axis


class Affine:
    def __init__(self, lin, tr):
        self.lin, self.tr = lin, tr


class QRdec:
    def __init__(self, m, kind):
        self.m, self.kind = m, kind


class LV:
    __slots__ = ("loc", "path")

    def __init__(self, loc, path=()):
        self.loc, self.path = loc, tuple(path)

    def ext(self, *steps): return LV(self.loc, self.path + steps)
    def __repr__(self): return f"LV({self.loc},{self.path})"


def same_path(a, b): return a is b or (isinstance(a, LV) and isinstance(b, LV) and a.loc == b.loc and a.path == b.path)


def merge_ptr(c, a, b):
    """one of two elements of the same container"""
    x, y = a.lv, b.lv
    if isinstance(x, LV) and isinstance(y, LV) and x.loc == y.loc and len(x.path) == len(y.path) and all(p[0] == q[0] for p, q in zip(x.path, y.path)):
        out = []
        for p, q in zip(x.path, y.path):
            if p == q:
                out.append(p)
            elif p[0] == "i" and len(p) == 2 and isinstance(p[1], E) and isinstance(q[1], E):
                out.append(("i", ite(c, p[1], q[1])))
            else:
                return Opaque("mergedptr")
        return Ptr(LV(x.loc, out), a.tag)
    return Opaque("mergedptr")


def merge(c, a, b):
    """value-level ite"""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if isinstance(a, E) and isinstance(b, E):
        return ite(c, a, b)
    if isinstance(a, Mx) and isinstance(b, Mx):
        return mite(c, a, b)
    if isinstance(a, Quat) and isinstance(b, Quat):
        return Quat(*[ite(c, x, y) for x, y in zip(a.comps(), b.comps())])
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls:
        return Obj(a.cls, {k: merge(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Seq) and isinstance(b, Seq):
        return Seq(ite(c, a.n, b.n), lambda t: merge(c, a.at(t), b.at(t)), a.tag, a.ety)
    if isinstance(a, Map) and isinstance(b, Map) and a.tag == b.tag:
        m = Map(ite(c, a.n, b.n), lambda t: ite(c, a.key(t), b.key(t)), lambda t: merge(c, a.val(t), b.val(t)), a.tag, a.vty, a.default)
        m.known = {k: v for k, v in a.known.items() if b.known.get(k) is v}
        return m
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        if a.tag == b.tag:
            return a
        return Opaque("merged")
    if isinstance(a, Str) and isinstance(b, Str):
        return a if a.items == b.items else Str((("opq", "merged"),))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a if same_path(a.lv, b.lv) else merge_ptr(c, a, b)
    if type(a) is not type(b):
        return Opaque("merged")
    if isinstance(a, AngleAxis):
        return AngleAxis(ite(c, a.angle, b.angle), mite(c, a.axis, b.axis))
    raise Unsupported(f"merge {type(a)}")


def vsubst(v, m):
    """substitute terms in a value"""
    if isinstance(v, E):
        return subst(v, m)
    if isinstance(v, Mx):
        return msubst(v, m)
    if isinstance(v, Quat):
        return Quat(*[subst(x, m) for x in v.comps()])
    if isinstance(v, Obj):
        return Obj(v.cls, {k: vsubst(x, m) for k, x in v.f.items()})
    if isinstance(v, Seq):
        return Seq(subst(v.n, m), lambda t: vsubst(v.at(t), m), v.tag, v.ety)
    if isinstance(v, Map):
        r = Map(subst(v.n, m), lambda t: subst(v.key(t), m), lambda t: vsubst(v.val(t), m), v.tag, v.vty, v.default)
        r.known = dict(v.known)
        return r
    if isinstance(v, Ptr):
        return Ptr(vsubst(v.lv, m), v.tag) if isinstance(v.lv, LV) else v
    if isinstance(v, LV):
        return LV(v.loc, [tuple(vsubst(x, m) if isinstance(x, (E, Mx)) else x for x in st) for st in v.path]) if v.path else v
    if isinstance(v, AngleAxis):
        return AngleAxis(subst(v.angle, m), msubst(v.axis, m))
    if isinstance(v, Affine):
        return Affine(vsubst(v.lin, m), vsubst(v.tr, m))
    if isinstance(v, QRdec):
        return QRdec(vsubst(v.m, m), v.kind)
    if isinstance(v, Iter):
        return Iter(vsubst(v.cont, m), vsubst(v.pos, m) if isinstance(v.pos, E) else v.pos)
    return v


def veq_terms(a, b, path=""):
    """list of (path, E|Mx a, b) leaves that must be equal"""
    if a is b:
        return []
    if isinstance(a, E) and isinstance(b, E):
        return [] if a is b else [(path, a, b)]
    if isinstance(a, Mx) and isinstance(b, Mx):
        return [(path, a, b)]
    if isinstance(a, Quat) and isinstance(b, Quat):
        return [(path + "." + n, x, y) for n, x, y in zip("wxyz", a.comps(), b.comps()) if x is not y]
    if isinstance(a, Obj) and isinstance(b, Obj):
        out = []
        for k in a.f:
            out += veq_terms(a.f[k], b.f[k], path + "." + k)
        return out
    if isinstance(a, (Opaque, Str, Ptr)) or isinstance(b, (Opaque, Str, Ptr)):
        return []
    raise Unsupported(f"compare {type(a)} {type(b)} at {path}")


# ------------------------------------------------------------------ quaternions
def qmul(a, b):
    return Quat(a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z,
                a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y,
                a.w * b.y + a.y * b.w + a.z * b.x - a.x * b.z,
                a.w * b.z + a.z * b.w + a.x * b.y - a.y * b.x)


def qnorm2(q): return q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z


def qconj(q): return Quat(q.w, -q.x, -q.y, -q.z)


UNIT = set()


def qinv(q):
    return Quat(*[div(t, qnorm2(q)) for t in qconj(q).comps()]) if not is_unit(q) else qconj(q)


def is_unit(q): return q.comps() in UNIT


def mark_unit(q):
    UNIT.add(q.comps())
    UNIT.add(qconj(q).comps())
    return q


OPQROT = {}      # components of a quaternion -> its rotation matrix as free entries (a check that needs no more registers it)


def opaque_rot(q, M):
    OPQROT[q.comps()] = M
    OPQROT[qconj(q).comps()] = mtr(M)
    return M


def qmat(q):
    w, x, y, z = q.comps()
    if (w, x, y, z) in OPQROT:
        return OPQROT[(w, x, y, z)]
    return mdense([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                   [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                   [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def qrot(q, v): return mmul(qmat(q), v)


def aa_quat(aa):
    h = aa.angle * R(Fr(1, 2))
    s, c = fn("sin", h), fn("cos", h)
    return Quat(c, s * elem(aa.axis, 0, 0), s * elem(aa.axis, 1, 0), s * elem(aa.axis, 2, 0))


# ------------------------------------------------------------------ program
class Program:
    def __init__(self, docs):
        self.by_sig, self.by_name, self.records, self.globals = {}, {}, {}, {}
        def ext(n, *fs): self.records[n] = {"name": n, "bases": [], "fields": [{"name": a, "t": t} for a, t in fs]}
        for t in ("float", "double", "int"):        # plain OpenCV aggregates
            ext(f"cv::Point_<{t}>", ("x", t), ("y", t))
            ext(f"cv::Point3_<{t}>", ("x", t), ("y", t), ("z", t))
        ext("cv::Vec<double, 3>", ("x", "double"), ("y", "double"), ("z", "double"))
        ext("cv::DMatch", ("queryIdx", "int"), ("trainIdx", "int"), ("imgIdx", "int"), ("distance", "float"))
        ext("cv::KeyPoint", ("pt", "cv::Point_<float>"), ("size", "float"), ("angle", "float"), ("response", "float"), ("octave", "int"), ("class_id", "int"))
        for d in docs:
            for f in d["functions"]:
                if f["sig"] not in self.by_sig:
                    self.by_sig[f["sig"]] = f
                    self.by_name.setdefault(f["fn"], []).append(f)
            for r in d["records"]:
                self.records.setdefault(r["name"], r)
            for g in d["globals"]:
                if g["q"] not in self.globals or ("init" in g and "init" not in self.globals[g["q"]]):
                    self.globals[g["q"]] = g

    def find(self, name, nparams=None, pred=None):
        c = self.by_name.get(name, [])
        if nparams is not None:
            c = [f for f in c if len(f["ps"]) == nparams]
        if pred:
            c = [f for f in c if pred(f)]
        return c[0] if c else None

    def fields(self, cls):
        r = self.records.get(cls)
        if r is None:
            return None
        out = []
        for b in r["bases"]:
            out += self.fields(strip(b)) or []
        return out + r["fields"]

    def bases(self, cls):
        r = self.records.get(cls)
        out = [cls]
        if r:
            for b in r["bases"]:
                out += self.bases(strip(b))
        return out


def strip(t):
    t = t.strip()
    while True:
        o = t
        if t.startswith("const "):
            t = t[6:]
        if t.endswith(" const"):
            t = t[:-6]
        t = t.rstrip("&").rstrip()
        if t == o:
            return t


_eig = re.compile(r"^Eigen::Matrix<double, (-?\d+), (-?\d+)")


def eig_dims(t):
    m = _eig.match(strip(t))
    return (int(m.group(1)), int(m.group(2))) if m else None


def tmpl_args(t):
    t = strip(t)
    i = t.find("<")
    if i < 0:
        return t, []
    d = 0
    out, cur = [], ""
    for ch in t[i + 1:t.rfind(">")]:
        if ch == "<":
            d += 1
        if ch == ">":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return t[:i], out


UNSIGNED = ("unsigned int", "unsigned long", "unsigned char", "unsigned short", "unsigned long long", "size_t")
INTS = UNSIGNED + ("int", "long", "short", "char", "long long", "signed char")
FLOATS = ("double", "float", "long double")


class Frame:
    def __init__(self, fn, this=None):
        self.fn, self.this, self.vars = fn, this, {}


class Interp:
    def __init__(self, prog, prover, contracts=None):
        self.prog, self.P = prog, prover
        self.contracts = contracts or {}
        self.store = {}
        self.pc = []
        self.nloc = 0
        self.frames = []
        self.decisions, self.dpos = [], 0
        self.used_contracts = set()
        self.inlined = set()
        self.events = []          # ghost trace (log rows, calls)
        self.side = []            # side obligations found while executing: (name, goal, pc)
        self.writes = None        # recording of written lvalues
        self.depth = 0
        self.maxpaths = 400
        self.globals = {}
        self.loop_invs = {}       # function name -> handler for loops (contract-level invariants)
        self.deadline = None
        self.libcalls = set()
        self.wrap_obs = True
        self.type_inv = {}        # class -> representation invariant applied to symbolic inputs
        self.steps = 0

    # -------------------------------------------------------------- state
    def alloc(self, v):
        self.nloc += 1
        self.store[self.nloc] = v
        return LV(self.nloc)

    def snap(self):
        return dict(self.store), list(self.pc), list(self.events), list(self.side)

    def restore(self, s):
        self.store, self.pc, self.events, self.side = dict(s[0]), list(s[1]), list(s[2]), list(s[3])

    def assume(self, f):
        if f is not TRUE and f not in self.pc:
            self.pc.append(f)

    def branch(self, c):
        if isinstance(c, E) and c.sort != "B":
            c = not_(eq(c, I(0) if c.sort == "I" else R(0)))
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.pc:
            return True
        if not_(c) in self.pc:
            return False
        t = self.P.feasible(self.pc + [c])
        f = self.P.feasible(self.pc + [not_(c)])
        if t and not f:
            self.assume(c)
            return True
        if f and not t:
            self.assume(not_(c))
            return False
        if not t and not f:
            raise AbortPath("infeasible")
        if self.dpos < len(self.decisions):
            d = self.decisions[self.dpos]
        else:
            d = True
            self.decisions.append(True)
        self.dpos += 1
        self.assume(c if d else not_(c))
        return d

    def explore(self, thunk):
        """run thunk on every feasible path from the current state.
        returns list of (kind, value, snapshot, new path conditions)"""
        s0 = self.snap()
        n0 = len(self.pc)
        od, op_, of = self.decisions, self.dpos, list(self.frames)
        fv = [dict(f.vars) for f in self.frames]
        out = []
        stack = [[]]
        while stack:
            if len(out) > self.maxpaths:
                raise Unsupported("too many paths")
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time limit")
            pre = stack.pop()
            self.restore(s0)
            self.frames = list(of)
            for f, v in zip(self.frames, fv):
                f.vars = dict(v)
            self.decisions, self.dpos = list(pre), 0
            kind, val = "normal", None
            try:
                val = thunk()
            except ReturnEx as r:
                kind, val = "return", r.v
            except BreakEx:
                kind = "break"
            except ContinueEx:
                kind = "continue"
            except AbortPath as a:
                kind, val = "abort", str(a)
            for i in range(len(pre), len(self.decisions)):
                if self.decisions[i]:
                    stack.append(self.decisions[:i] + [False])
            out.append((kind, val, self.snap(), self.pc[n0:]))
        self.restore(s0)
        self.frames = list(of)
        for f, v in zip(self.frames, fv):
            f.vars = dict(v)
        self.decisions, self.dpos = od, op_
        return out

    # -------------------------------------------------------------- load / store
    def load(self, lv):
        v = self.store[lv.loc]
        for s in lv.path:
            v = self.step(v, s)
        return v

    def step(self, v, s):
        k = s[0]
        if k == "f":
            if isinstance(v, Obj):
                if s[1] not in v.f:
                    raise Unsupported(f"no field {s[1]} in {v.cls}")
                return v.f[s[1]]
            if isinstance(v, Opaque):
                return Opaque(v.tag + "." + s[1])
            raise Unsupported(f"field {s[1]} of {type(v).__name__}")
        if k == "i":
            if isinstance(v, Opaque):
                return Opaque(v.tag + "[]")
            return v.at(s[1])
        if k == "kv":
            return v.val(s[1])
        if k == "mb":
            return mblk(v, *s[1:])
        if k == "me":
            return elem(v, s[1], s[2])
        if k == "mdiag":
            return mmk("mdiagof", (v,), v.r, I(1))
        if k == "q":
            return getattr(v, s[1])
        if k == "qv":
            return vec(v.x, v.y, v.z)
        if k == "aff":
            return v.lin if s[1] == "lin" else v.tr
        raise Unsupported("step " + k)

    def put(self, lv, val):
        if self.writes is not None:
            self.writes.append(lv)
        self.store[lv.loc] = self._put(self.store[lv.loc], lv.path, val)

    def note_write(self, key):
        if self.writes is not None:
            self.writes.append(LV(key[0], key[1]))

    def _put(self, v, path, val):
        if not path:
            return val
        s = path[0]
        k = s[0]
        if k == "f":
            if isinstance(v, Opaque):
                return v
            return v.set(s[1], self._put(v.f.get(s[1]), path[1:], val))
        if k == "i":
            if isinstance(v, Opaque):
                return v
            return v.set(s[1], self._put(v.at(s[1]), path[1:], val) if path[1:] else val)
        if k == "kv":
            return v.set(s[1], self._put(v.val(s[1]), path[1:], val) if path[1:] else val)
        if k == "mb":
            new = self._put(mblk(v, *s[1:]), path[1:], val) if path[1:] else val
            if new.r is not s[3] or new.c is not s[4]:
                self.side.append(("block assignment dimensions agree", and_(eq(new.r, s[3]), eq(new.c, s[4])), list(self.pc)))
                new = mmk("mblk", (new, I(0), I(0)), s[3], s[4])
            self.bounds(v, s[1], s[2], s[3], s[4])
            return mset(v, s[1], s[2], new)
        if k == "me":
            self.bounds(v, s[1], s[2], I(1), I(1))
            return mset(v, s[1], s[2], mdense([[val]]))
        if k == "mdiag":
            bi, bj = var("bi", "I"), var("bj", "I")
            return norm_small(mmk("mfn", (bi, bj, ite(eq(bi, bj), elem(val, bi, I(0)), elem(v, bi, bj))), v.r, v.c))
        if k == "q":
            d = {c: getattr(v, c) for c in "wxyz"}
            d[s[1]] = val
            return Quat(**d)
        if k == "qv":
            return Quat(v.w, elem(val, 0, 0), elem(val, 1, 0), elem(val, 2, 0))
        if k == "aff":
            new = self._put(v.lin if s[1] == "lin" else v.tr, path[1:], val) if path[1:] else val
            return Affine(new, v.tr) if s[1] == "lin" else Affine(v.lin, new)
        raise Unsupported("put step " + k)

    def bounds(self, m, i, j, r, c):
        """block inside the matrix: side obligation"""
        g = and_(le(I(0), i), le(add(i, r), m.r), le(I(0), j), le(add(j, c), m.c))
        if g is not TRUE:
            self.side.append(("block within matrix bounds", g, list(self.pc)))

    # -------------------------------------------------------------- symbolic inputs
    def sym(self, t, name, idx=(), unit=True):
        """symbolic value of C++ type t"""
        t = strip(t)
        def sc(n, sort):
            return app(n, idx, sort) if idx else var(n, sort)
        if t in FLOATS:
            return sc(name, "R")
        if t == "bool":
            return sc(name, "B")
        if t in UNSIGNED:
            v = sc(name, "I")
            if idx:
                self.P.axioms.setdefault(name, lambda ts: [le(I(0), x) for x in ts])
            else:
                self.assume(le(I(0), v))
            return v
        if t in INTS:
            return sc(name, "I")
        d = eig_dims(t)
        if d:
            r, c = d
            if r > 0 and c > 0:
                return mdense([[sc(f"{name}.{i}" if c == 1 else f"{name}.{i}_{j}", "R") for j in range(c)] for i in range(r)])
            rr = I(r) if r > 0 else sc(name + ".rows", "I")
            cc = I(c) if c > 0 else sc(name + ".cols", "I")
            for x in (rr, cc):
                if x.op == "v":
                    self.assume(le(I(0), x))
            if idx:
                return mmk("fmat", (name,) + tuple(idx), rr, cc)
            return mvar(name, rr, cc)
        if t.startswith("Eigen::Quaternion<"):
            q = Quat(*[sc(f"{name}.{n}", "R") for n in "wxyz"])
            if unit:
                self.unit_quat(q)
                if idx:
                    def mkq(c):
                        def h(env, *ix):
                            import random
                            rg = random.Random(f"{name}{ix}{env.base.get('seed', 0)}")
                            vs = [rg.gauss(0, 1) for _ in range(4)]
                            return vs[c] / sum(x * x for x in vs) ** 0.5
                        return h
                    for c, n in enumerate("wxyz"):
                        self.P.hooks.setdefault(f"{name}.{n}", mkq(c))
            return q
        if t in self.prog.records:
            o = Obj(t, {f["name"]: self.sym(f["t"], f"{name}.{f['name']}", idx, unit) for f in self.prog.fields(t)})
            inv = self.type_inv.get(t)
            return inv(o) if inv else o
        if t.startswith("std::mersenne_twister_engine"):      # ghost: which sequence, and how many draws were made
            return Obj("std::mt19937_64", {"seed": sc(name + ".seed", "I"), "count": sc(name + ".count", "I")})
        base, a = tmpl_args(t)
        if base in ("std::vector",):
            n = sc(name + ".len", "I")
            if idx:
                self.P.axioms.setdefault(name + ".len", lambda ts: [le(I(0), x) for x in ts])
            else:
                self.assume(le(I(0), n))
            return Seq(n, lambda k: self.sym(a[0], name + "[]", tuple(idx) + (k,), unit), name, a[0])
        if base == "std::map" and a[0] in UNSIGNED:
            n = sc(name + ".len", "I")
            self.assume(le(I(0), n))
            kn = name + ".key"
            def key(k): return app(kn, tuple(idx) + (k,), "I")
            def ax(ts):
                out = [le(I(0), t) for t in ts]
                for p in ts:
                    for q in ts:
                        if p is not q:
                            i, j = p.args[-1], q.args[-1]
                            out.append(implies(and_(le(I(0), i), lt(i, j), lt(j, n)), lt(p, q)))
                return out
            self.P.axioms[kn] = ax
            self.P.hooks.setdefault(kn, lambda env, *ix: 3 * ix[-1] + 1)
            return Map(n, key, lambda k: self.sym(a[1], name + "[]", tuple(idx) + (k,), unit), name, a[1],
                       lambda: self.default(a[1]))
        if base in ("std::shared_ptr", "std::unique_ptr"):
            return Opaque("ptr:" + name)
        if "basic_string" in base:
            return Str((("opq", name),))
        if t.startswith("Eigen::Transform<double, 3"):
            return Affine(self.sym("Eigen::Matrix<double, 3, 3>", name + ".lin", idx), self.sym("Eigen::Matrix<double, 3, 1>", name + ".tr", idx))
        if t in self.enum_types() or re.match(r"^[\w:]+$", t) and not t.startswith(("std::", "cv::", "Eigen::")):
            return sc(name, "I")
        return Opaque("sym:" + name)

    def enum_types(self):
        return ("AugmentationType", "GpsInitType", "SensorType", "LogLevel")

    def unit_quat(self, q):
        """register |q| = 1 (relation on w)"""
        p = self.P.poly
        rel = {(): Fr(1)}
        for t in (q.x, q.y, q.z):
            rel[((t, 2),)] = Fr(-1)
        p.rel[q.w] = rel
        mark_unit(q)
        h = getattr(self.P, "unitq", None)
        if h is None:
            h = self.P.unitq = []
        h.append(q)

    def default(self, t):
        """value-initialised / default-constructed value of a type"""
        t = strip(t)
        if t in FLOATS:
            return R(0)
        if t in INTS:
            return I(0)
        if t == "bool":
            return FALSE
        return self.construct(t, [], None)

    def uninit(self, t):
        t = strip(t)
        if t in FLOATS:
            return fresh("uninit", "R")
        if t in INTS:
            return fresh("uninit", "I")
        if t == "bool":
            return fresh("uninit", "B")
        return self.construct(t, [], None)

    # -------------------------------------------------------------- construction
    def construct(self, t, args, node):
        t = strip(t)
        d = eig_dims(t)
        if d:
            return self.eig_construct(d, args)
        if t.startswith("Eigen::Quaternion<"):
            if not args:
                return Quat(*[fresh("uninit", "R") for _ in range(4)])
            if len(args) == 4:
                return Quat(*[toreal(a) for a in args])
            a = args[0]
            if isinstance(a, Quat):
                return a
            if isinstance(a, AngleAxis):
                return aa_quat(a)
            if isinstance(a, Mx):
                d2 = dims(a)
                if d2 == (4, 1):
                    return Quat(elem(a, 3, 0), elem(a, 0, 0), elem(a, 1, 0), elem(a, 2, 0))
                return self.quat_from_mat(a)
        if t.startswith("Eigen::AngleAxis<"):
            if len(args) == 2:
                return AngleAxis(toreal(args[0]), args[1])
            if len(args) == 1 and isinstance(args[0], AngleAxis):
                return args[0]
            if len(args) == 1 and isinstance(args[0], Quat):
                return self.aa_from_quat(args[0])
            if not args:
                return AngleAxis(fresh("uninit", "R"), vec(*[fresh("uninit", "R") for _ in range(3)]))
        if t.startswith("Eigen::Transform<double, 3"):
            if not args:
                return Affine(mdense([[fresh("uninit", "R") for _ in range(3)] for _ in range(3)]), vec(*[fresh("uninit", "R") for _ in range(3)]))
            return args[0]
        if t.startswith(("Eigen::HouseholderQR", "Eigen::ColPivHouseholderQR", "Eigen::JacobiSVD")):
            return QRdec(args[0], t.split("<")[0].split("::")[1])
        if t.startswith("Eigen::JacobiRotation"):
            return Obj("JacobiRotation", {"c": fresh("uninit", "R"), "s": fresh("uninit", "R")})
        if t.startswith("Eigen::") and len(args) == 1:
            return args[0]
        if t == "cv::Mat" and len(args) in (3, 4) and all(isinstance(x, E) and x.op == "c" for x in args[:2]) and not (len(args) == 4 and not isinstance(args[3], E)):
            r, c = args[0].args[0], args[1].args[0]      # a matrix of doubles of a given size
            return norm_small(mdense([[toreal(args[3]) if len(args) == 4 else fresh("uninit", "R") for _ in range(c)] for _ in range(r)]))
        if t in self.prog.records:
            return self.obj_construct(t, args, node)
        base, a = tmpl_args(t)
        if base in ("std::vector", "std::deque"):
            if not args:
                return Seq(I(0), lambda k: self.uninit(a[0]), "empty", a[0])
            if len(args) >= 1 and isinstance(args[0], Seq):
                return args[0]
            if isinstance(args[0], E):
                v = args[1] if len(args) > 1 and not isinstance(args[1], Opaque) else self.default(a[0])
                return Seq(args[0], lambda k: v, "fill", a[0])
            if isinstance(args[0], list):
                return Seq.of(args[0], a[0])
        if base == "std::map" or base == "std::unordered_map":
            if not args:
                return Map(I(0), lambda k: I(0), lambda k: self.default(a[1]), "emptymap", a[1], lambda: self.default(a[1]))
            if isinstance(args[0], Map):
                return args[0]
        if "basic_string<" in t or "basic_stringstream" in t or "basic_ostringstream" in t:
            if not args or isinstance(args[0], Opaque):
                return Str()
            if isinstance(args[0], Str):
                return args[0]
            return Str((("opq", "str"),))
        if base in ("std::shared_ptr", "std::unique_ptr"):
            return args[0] if args else Opaque("nullptr")
        if len(args) == 1 and t not in FLOATS + INTS:
            return args[0]
        if t in FLOATS and len(args) == 1:
            return toreal(args[0])
        return Opaque("new:" + t[:60])

    def quat_from_mat(self, m):
        """Eigen::Quaternion(Matrix3): contract q.toRotationMatrix() == m for a rotation m, |q| = 1.
        When m is symbolically R(q1)*R(q2).. built from known unit quaternions it is their product up to sign."""
        key = dense(m)
        names = getattr(self, "qmats", None)
        if names:
            for (mm, q) in names:
                try:
                    if all(self.P.poly.zero(sub(x, y)) for r1, r2 in zip(dense(mm), key) for x, y in zip(r1, r2)):
                        return q
                except GiveUp:
                    pass
        flat = [x for row in key for x in row]
        q = Quat(*[app("quatOf_" + n, flat, "R") for n in "wxyz"])
        self.unit_quat(q)
        return q

    def aa_from_quat(self, q):
        """Eigen::AngleAxis(q): n = |vec|; if n < eps: n = stableNorm; angle = 2 atan2(n, |w|); axis = vec/±n"""
        n = fn("sqrt", q.x * q.x + q.y * q.y + q.z * q.z)
        nz = self.branch(lt(R(0), n))
        if not nz:
            return AngleAxis(R(0), vec(1, 0, 0))
        neg_ = self.branch(lt(q.w, R(0)))
        aw = neg(q.w) if neg_ else q.w
        angle = R(2) * fn("atan2", n, aw)
        s = R(-1) if neg_ else R(1)
        return AngleAxis(angle, vec(*[div(t, s * n) for t in (q.x, q.y, q.z)]))

    def eig_construct(self, d, args):
        r, c = d
        def un(rr, cc):
            dd = (pyint(lift(rr)), pyint(lift(cc)))
            if None not in dd and dd[0] * dd[1] <= 36:
                return mdense([[fresh("uninit", "R") for _ in range(dd[1])] for _ in range(dd[0])]) if dd[0] and dd[1] else mzero(dd[0], dd[1])
            return mvar(f"uninit{fresh('u', 'I').args[0]}", rr, cc)
        if not args:
            if r > 0 and c > 0:
                return un(r, c)
            return mzero(max(r, 0), max(c, 0))
        if len(args) == 1:
            a = args[0]
            if isinstance(a, Mx):
                return a
            if isinstance(a, Quat):
                return qmat(a)
            if isinstance(a, AngleAxis):
                return qmat(aa_quat(a))
            if isinstance(a, E):
                if a.sort == "I":
                    return un(a if r < 0 else r, a if r > 0 and c < 0 else (1 if c < 0 else c))
                return mdense([[a]])
            if isinstance(a, list):
                return vec(*a)
            if isinstance(a, Affine):
                raise Unsupported("matrix from affine")
            if isinstance(a, QRdec):
                raise Unsupported("matrix from decomposition")
            raise Unsupported(f"matrix from {type(a).__name__}")
        if (r > 0 and c == 1 and len(args) == r) or (c > 0 and r == 1 and len(args) == c):
            m = vec(*[toreal(a) for a in args])
            return m if c == 1 else mtr(m)
        if len(args) == 2 and all(isinstance(a, E) for a in args):
            return un(args[0], args[1])
        if len(args) == 2 and isinstance(args[0], Mx):
            return args[0]
        raise Unsupported("matrix constructor")

    def obj_construct(self, cls, args, node):
        sig = node.get("sig") if node else None
        f = self.prog.by_sig.get(sig) if sig else None
        if f is None and not args:
            f = self.prog.find(f"{cls}::{cls.split('::')[-1]}", 0)
        if f is None:
            if args and isinstance(args[0], Obj):
                return args[0]
            o = Obj(cls, {})
            lv = self.alloc(o)
            for fd in self.prog.fields(cls):
                self.frames.append(Frame(None, lv))
                try:
                    v = self.ev(fd["init"]) if "init" in fd else self.uninit(fd["t"])
                    if isinstance(v, list):
                        v = self.construct(fd["t"], v, None) if len(v) != 1 or fd["t"] not in FLOATS + INTS else v[0]
                finally:
                    self.frames.pop()
                v = self.coerce(v, fd["t"])
                self.store[lv.loc] = self.store[lv.loc].set(fd["name"], v)
            return self.store.pop(lv.loc)
        lv = self.alloc(Obj(cls, {}))
        self.run_ctor(f, lv, args)
        return self.store.pop(lv.loc)

    def run_ctor(self, f, lv, args):
        fr = Frame(f, lv)
        self.bind_params(f, fr, args)
        self.frames.append(fr)
        if not lv.path and isinstance(self.store.get(lv.loc), Obj) and not self.store[lv.loc].f:
            t = self.store[lv.loc].cls      # members the constructors leave uninitialised
            for b in list((self.prog.records.get(t) or {"bases": []})["bases"]) + [t]:
                for x in self.prog.fields(strip(b)) or []:
                    if strip(x["t"]) in FLOATS + INTS + ("bool",) or strip(x["t"]) in self.enum_types():
                        self.store[lv.loc] = self.store[lv.loc].set(x["name"], fresh("uninit", "R" if strip(x["t"]) in FLOATS else "B" if strip(x["t"]) == "bool" else "I"))
        try:
            for i in f["inits"]:
                if "m" in i:
                    v = self.ev(i["e"])
                    ft = next((x["t"] for x in self.prog.fields(f["cls"]) if x["name"] == i["m"]), "")
                    v = self.coerce(v, ft)
                    self.store[lv.loc] = self._put(self.store[lv.loc], lv.path + (("f", i["m"]),), v) if lv.path else self.store[lv.loc].set(i["m"], v)
                elif "base" in i:
                    v = self.ev(i["e"])
                    if isinstance(v, Obj):
                        o = self.load(lv)
                        self.store[lv.loc] = Obj(o.cls, {**o.f, **v.f})
            try:
                self.exec(f["b"])
            except ReturnEx:
                pass
        finally:
            self.frames.pop()

    def coerce(self, v, t):
        t = strip(t)
        if isinstance(v, list):
            if t in FLOATS + INTS + ("bool",):
                v = v[0] if v else self.default(t)
            else:
                return self.construct(t, v if not (len(v) == 1 and isinstance(v[0], (Mx, Obj, Seq, Map, Quat))) else [v[0]], None)
        if isinstance(v, E):
            if t in FLOATS:
                return toreal(v)
            if t in INTS and v.sort == "B":
                return toint(v)
        return v

    # -------------------------------------------------------------- calls
    def bind_params(self, f, fr, args):
        for p, a in zip(f["ps"], args):
            if isinstance(a, LV):
                fr.vars[p["id"]] = a
            else:
                fr.vars[p["id"]] = self.alloc(self.coerce(a, p["t"]))
        for p in f["ps"][len(args):]:
            if "init" in p:
                fr.vars[p["id"]] = self.alloc(self.coerce(self.ev(p["init"]), p["t"]))

    def call_user(self, f, this, args, node=None):
        name = f["fn"]
        c = self.contracts.get(f["sig"]) or self.contracts.get(name)
        if c is not None:
            self.used_contracts.add(name)
            r = c(self, this, args, f)
            if r is not NotImplemented:
                return r
        if self.depth > 12:
            raise Unsupported("recursion")
        self.inlined.add(name)
        return self.inline(f, this, args)

    def inline(self, f, this, args):
        fr = Frame(f, this)
        self.bind_params(f, fr, args)
        self.frames.append(fr)
        self.depth += 1
        try:
            self.exec(f["b"])
            return None
        except ReturnEx as r:
            v = r.v
            if isinstance(v, LV) and not f.get("retref"):
                v = self.load(v)
            return self.coerce(v, f["rt"]) if not isinstance(v, LV) else v
        finally:
            self.depth -= 1
            self.frames.pop()

    def call_lambda(self, lam, args):
        if self.depth > 12:
            raise Unsupported("recursion")
        o = lam.frame
        f = {"fn": (o.fn or {}).get("fn", "?") + "::lambda", "ps": lam.node["ps"], "sig": "lambda"}
        fr = Frame(f, o.this)
        fr.vars = dict(o.vars)
        fr.vars.update(lam.copies)
        self.bind_params(f, fr, self.match_args(f, args))
        self.frames.append(fr)
        self.depth += 1
        try:
            self.exec(lam.node["b"])
            return None
        except ReturnEx as r:
            return self.load(r.v) if isinstance(r.v, LV) else r.v
        finally:
            self.depth -= 1
            self.frames.pop()

    def e_lambda(self, e):
        fr = self.frames[-1]
        cp = {}
        for c in e["cs"]:
            if not c.get("ref") and "id" in c:
                lv = fr.vars.get(c["id"])
                if lv is not None:
                    cp[c["id"]] = self.alloc(self.load(lv))
        return Lam(e, fr, cp)

    # -------------------------------------------------------------- statements
    def exec(self, s):
        if s is None:
            return
        self.steps += 1
        if self.deadline and (self.steps & 63) == 0 and time.time() > self.deadline:
            raise Unsupported("time limit")
        k = s["k"]
        if k == "block":
            for x in s["b"]:
                self.exec(x)
        elif k == "expr":
            self.evx(s["e"])
        elif k == "decl":
            for v in s["v"]:
                self.declare(v)
        elif k == "if":
            if s.get("i"):
                self.exec(s["i"])
            if s.get("cv"):
                self.declare(s["cv"])
            if self.branch(self.cond(s["c"])):
                self.exec(s["x"])
            else:
                self.exec(s["y"])
        elif k == "ret":
            e = s["e"]
            if e is None:
                raise ReturnEx(None)
            f = self.frames[-1].fn
            if f and f.get("retref"):
                raise ReturnEx(self.lvx(e))
            raise ReturnEx(self.ev(e))
        elif k == "break":
            raise BreakEx()
        elif k == "continue":
            raise ContinueEx()
        elif k == "nop":
            pass
        elif k in ("for", "while", "rfor", "do"):
            import loops
            loops.exec_loop(self, s)
        elif k == "switch":
            self.exec_switch(s)
        else:
            raise Unsupported("statement " + s.get("cls", k))

    def exec_switch(self, s):
        v = self.ev(s["c"])
        body = s["b"]["b"]
        # flatten: list of (labels, stmts)
        flat = []
        def push(st, labels):
            while st and st["k"] in ("case", "default"):
                labels.append(None if st["k"] == "default" else st["v"])
                st = st["b"]
            flat.append((labels, st))
        for st in body:
            push(st, [])
        start = None
        for i, (labels, st) in enumerate(flat):
            for l in labels:
                if l is not None and start is None and self.branch(eq(v, self.ev(l))):
                    start = i
        if start is None:
            for i, (labels, st) in enumerate(flat):
                if None in labels:
                    start = i
        if start is None:
            return
        try:
            for labels, st in flat[start:]:
                self.exec(st)
        except BreakEx:
            pass

    def cond(self, e):
        v = self.ev(e)
        if isinstance(v, (Opaque, Ptr)):
            t = getattr(v, "tag", "")
            if t == "nullptr":
                return FALSE
            return var("opq:" + t, "B")
        if not isinstance(v, E):
            raise Unsupported(f"condition on {type(v).__name__}")
        if v.sort != "B":
            v = not_(eq(v, I(0) if v.sort == "I" else R(0)))
        return v

    def declare(self, v):
        fr = self.frames[-1]
        t = v["t"]
        if v.get("static"):
            if t.startswith("const ") and "init" in v:
                val = self.coerce(self.ev(v["init"]), t)
                if isinstance(val, E) and isc(val):
                    fr.vars[v["id"]] = self.alloc(val)
                    return
            fr.vars[v["id"]] = self.static_loc(f"{(fr.fn or {}).get('fn', '?')}::{v['name']}", t)
            return
        if v.get("isref") or t.endswith("&") or t.endswith("&&"):
            x = self.lvx(v["init"])
            fr.vars[v["id"]] = x
            return
        if "init" not in v:
            val = self.uninit(t)
        else:
            i = v["init"]
            if strip(t).startswith(("Eigen::Block<", "Eigen::VectorBlock<")):
                fr.vars[v["id"]] = self.lvx(i)
                return
            val = self.ev(i)
            if val is None:
                val = Opaque("void")
            val = self.coerce(val, t)
        fr.vars[v["id"]] = self.alloc(val)

    # -------------------------------------------------------------- expressions
    def evx(self, e):
        """evaluate for effect"""
        try:
            return self._ev(e)
        except KeyError as k:
            raise Unsupported(f"key {k} in {e.get('k')} line {e.get('l')}")

    def ev(self, e):
        v = self.evx(e)
        if isinstance(v, LV):
            v = self.load(v)
        return v

    def lvx(self, e):
        """lvalue if the expression denotes one, else a temporary"""
        v = self.evx(e)
        if isinstance(v, LV):
            return v
        return self.alloc(v)

    def _ev(self, e):
        if e is None:
            return None
        m = getattr(self, "e_" + {"?": "unk", "float": "flt", "int": "int", "bool": "bool_"}.get(e["k"], e["k"]), None)
        if m is None:
            raise Unsupported(f"expression {e['k']} {e.get('cls', '')} line {e.get('l')}")
        return m(e)

    def e_unk(self, e): raise Unsupported(f"expression {e.get('cls')} line {e.get('l')}")
    def e_int(self, e): return I(e["v"])
    def e_bool_(self, e): return B(bool(e["v"]))
    def e_enum(self, e): return I(e["v"])

    def e_flt(self, e):
        s = e.get("src", e["v"]).rstrip("fFlL")
        try:
            return R(Fr(s))
        except (ValueError, ZeroDivisionError):
            try:
                return R(Fr(e["v"]))
            except ValueError:
                return R(Fr(float(e["v"])))

    def e_str(self, e): return Str((("lit", e["v"]),))
    def e_null(self, e): return Opaque("nullptr")

    def e_this(self, e):
        return Ptr(self.frames[-1].this)

    def e_zinit(self, e): return self.default(e["t"])

    def e_ref(self, e):
        if e.get("glob") and not e.get("slocal"):
            return self.global_(e)
        for fr in reversed(self.frames):
            if e["id"] in fr.vars:
                return fr.vars[e["id"]]
            if fr is self.frames[-1] and fr.fn is not None:
                break
        for fr in reversed(self.frames):
            if e["id"] in fr.vars:
                return fr.vars[e["id"]]
        raise Unsupported(f"variable {e['name']} line {e.get('l')}")

    def static_loc(self, key, t):
        """a variable that outlives calls: any value its type allows, whatever happened before"""
        lv = self.globals.get(key)
        if lv is None:
            lv = self.globals[key] = LV(-len(self.globals) - 1)      # older than every other location
            self.static0 = getattr(self, "static0", {})
        if lv.loc not in self.store:
            if key not in self.static0:
                self.static0[key] = self.sym(t, "static " + key)
            self.store[lv.loc] = v = self.static0[key]
            if isinstance(v, E) and v.sort == "I" and "unsigned" in t:
                self.assume(le(I(0), v))
        return lv

    def old_statics(self, st, locs):
        """a snapshot taken before a static was first touched: its value then is the one at the start"""
        for key, lv in self.globals.items():
            if lv.loc in locs and lv.loc not in st[0]:
                st[0][lv.loc] = self.static0[key]

    def global_(self, e):
        q = e["q"]
        g = self.prog.globals.get(q)
        if g is not None and not re.search(r"\bconst(expr)?\b", g["t"]):
            return self.static_loc(q, g["t"])
        if g is None or "init" not in g:
            return Opaque("global:" + q)
        self.frames.append(Frame(None, None))
        try:
            v = self.coerce(self.ev(g["init"]), g["t"])
        finally:
            self.frames.pop()
        if "const" in g["t"] or "constexpr" in g["t"]:
            return v
        return v

    def e_mem(self, e):
        b = self.evx(e["e"])
        if e.get("arrow"):
            if isinstance(b, LV):
                b = self.load(b)
            if isinstance(b, Ptr):
                b = b.lv
            elif isinstance(b, Iter):
                return self.iter_member(b, e["name"])
            elif isinstance(b, Opaque):
                return Opaque(b.tag + "->" + e["name"])
        if isinstance(b, tuple) and b and b[0] == "entry":
            return b[1] if e["name"] == "first" else b[2]
        if isinstance(b, LV):
            v = self.load(b)
            if isinstance(v, tuple) and v and v[0] == "entry":
                return v[1] if e["name"] == "first" else v[2]
            if isinstance(v, Obj) and e["name"] not in v.f:
                raise Unsupported("field " + e["name"])
            return b.ext(("f", e["name"]))
        if isinstance(b, Obj):
            return b.f[e["name"]]
        if isinstance(b, Opaque):
            return Opaque(b.tag + "." + e["name"])
        raise Unsupported(f"member {e['name']} of {type(b).__name__}")

    def iter_member(self, it, name):
        c = self.load(it.cont)
        if isinstance(c, Map):
            return c.key(it.pos) if name == "first" else it.cont.ext(("kv", it.pos))
        return it.cont.ext(("i", it.pos), ("f", name))

    def e_upcast(self, e):
        return self.evx(e["e"])

    def e_cast(self, e):
        v = self.ev(e["e"])
        ck = e["ck"]
        if not isinstance(v, E):
            if ck == "PointerToBoolean":
                t = getattr(v, "tag", "")
                return FALSE if t == "nullptr" else var("opq:" + t, "B")
            return v
        if ck == "IntegralToFloating":
            return toreal(v)
        if ck == "FloatingToIntegral":
            r = toint(v)
            if strip(e["t"]) in UNSIGNED:
                g = le(I(0), r)
                self.wrap("conversion of a negative value to unsigned", g)
            return r
        if ck in ("IntegralToBoolean",):
            return not_(eq(v, I(0))) if v.sort == "I" else v
        if ck == "FloatingToBoolean":
            return not_(eq(v, R(0)))
        if ck == "IntegralCast":
            if v.sort == "B":
                return toint(v)
            if strip(e["t"]) in UNSIGNED and strip(e.get("ft", "")) not in UNSIGNED:
                self.wrap("conversion of a negative value to unsigned", le(I(0), v))
            return v
        return v

    def wrap(self, what, g):
        if g is TRUE or g in self.pc:
            return
        if self.wrap_obs:
            self.side.append((what, g, list(self.pc)))
        self.assume(g)

    def e_cond(self, e):
        c = self.cond(e["c"])
        return self.evx(e["x"]) if self.branch(c) else self.evx(e["y"])

    def e_ilist(self, e):
        t = strip(e["t"])
        vals = [self.ev(x) for x in e["a"]]
        if t in self.prog.records:
            fs = self.prog.fields(t)
            return Obj(t, {f["name"]: self.coerce(v, f["t"]) for f, v in zip(fs, vals)})
        if t in FLOATS + INTS + ("bool",) and len(vals) == 1:
            return self.coerce(vals[0], t)
        if t in FLOATS + INTS and not vals:
            return self.default(t)
        return vals

    def e_new(self, e):
        t = strip(e["t"])
        if e["copy"] and len(e["a"]) == 1:
            v = self.ev(e["a"][0])
            return v
        args = [self.evx(a) for a in e["a"]]
        f = self.prog.by_sig.get(e.get("sig"))
        c = self.contracts.get("new:" + e["cls"])
        if c:
            self.used_contracts.add("new:" + e["cls"])
            return c(self, None, args, e)
        if f is None and len(args) == 1 and isinstance(args[0], LV) and e["cls"] in ("cv::_InputArray", "cv::_OutputArray", "cv::_InputOutputArray"):
            return args[0]      # OpenCV's proxy of an argument taken by reference
        if f is None:
            args = [self.load(a) if isinstance(a, LV) else a for a in args]
        else:
            args = self.match_args(f, args)
        if e["cls"] in ("std::normal_distribution", "std::uniform_real_distribution") and len(args) == 2:
            return Obj(e["cls"], {"a": toreal(args[0]), "b": toreal(args[1])})
        if e["cls"] == "std::mersenne_twister_engine":
            return Obj("std::mt19937_64", {"seed": args[0] if args else I(5489), "count": I(0)})
        return self.construct(t, args, e)

    def match_args(self, f, args):
        out = []
        for p, a in zip(f["ps"], args):
            if isinstance(a, LV) and not p.get("isref"):
                a = self.load(a)
            out.append(a)
        return out + args[len(f["ps"]):]

    def e_un(self, e):
        op = e["op"]
        if op in ("++", "--"):
            lv = self.lvx(e["e"])
            old = self.load(lv)
            d = I(1) if old.sort == "I" else R(1)
            new = old + d if op == "++" else old - d
            if op == "--" and strip(e["t"]) in UNSIGNED:
                self.wrap("unsigned decrement does not wrap", le(I(1), old))
            self.put(lv, new)
            return old if e["post"] else lv
        if op == "*":
            v = self.ev(e["e"])
            if isinstance(v, Ptr):
                return v.lv
            return v
        if op == "&":
            v = self.evx(e["e"])
            return Ptr(v) if isinstance(v, LV) else Opaque("addr")
        v = self.ev(e["e"])
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        if op == "!":
            return not_(self.cond(e["e"])) if not isinstance(v, E) else not_(v if v.sort == "B" else not_(eq(v, I(0))))
        raise Unsupported("unary " + op)

    def e_bin(self, e):
        op = e["op"]
        if op == "&&":
            return TRUE if self.branch(self.cond(e["x"])) and self.branch(self.cond(e["y"])) else FALSE
        if op == "||":
            return TRUE if self.branch(self.cond(e["x"])) or self.branch(self.cond(e["y"])) else FALSE
        if op == ",":
            self.evx(e["x"])
            return self.evx(e["y"])
        a, b = self.ev(e["x"]), self.ev(e["y"])
        return self.binop(op, a, b, strip(e["t"]), strip(e["x"]["t"]))

    def binop(self, op, a, b, t, ot=""):
        if isinstance(a, (Opaque, Ptr)) or isinstance(b, (Opaque, Ptr)):
            if op in ("==", "!="):
                ta, tb = getattr(a, "tag", "?"), getattr(b, "tag", "?")
                c = var(f"opq:{ta}=={tb}", "B")
                return c if op == "==" else not_(c)
            return Opaque("expr")
        if op == "+":
            return a + b
        if op == "-":
            if t in UNSIGNED:
                self.wrap("unsigned subtraction does not wrap", le(b, a))
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if t in FLOATS:
                return div(a, b)
            return idiv(a, b)
        if op == "%":
            return imod(a, b)
        if op == "<":
            return lt(a, b)
        if op == "<=":
            return le(a, b)
        if op == ">":
            return lt(b, a)
        if op == ">=":
            return le(b, a)
        if op == "==":
            return eq(a, b)
        if op == "!=":
            return not_(eq(a, b))
        if op in ("|", "&", "<<", ">>", "^"):
            return Opaque("bits")
        raise Unsupported("binary " + op)

    def e_assign(self, e):
        v = self.ev(e["y"])
        lv = self.lvx(e["x"])
        self.put(lv, self.coerce(v, e["t"]))
        return lv

    def e_cassign(self, e):
        v = self.ev(e["y"])
        lv = self.lvx(e["x"])
        old = self.load(lv)
        ct = strip(e.get("ct", e["t"]))
        if ct in FLOATS:
            old, v = toreal(old), toreal(v)
        r = self.binop(e["op"][:-1], old, v, ct)
        t = strip(e["t"])
        if t in INTS and isinstance(r, E) and r.sort == "R":
            r = toint(r)
        self.put(lv, r)
        return lv

    def e_idx(self, e):
        b = self.evx(e["x"])
        i = self.ev(e["y"])
        if isinstance(b, LV):
            return b.ext(("i", i))
        return b.at(i)

    def e_fref(self, e): return Opaque("fn:" + e["fn"], e)
    def e_heapnew(self, e): return Opaque("heap")

    def e_call(self, e):
        import lib
        name = e.get("fn")
        if name is None:
            return lib.call_indirect(self, e)
        f = self.prog.by_sig.get(e["sig"])
        if f is not None or e["sig"] in self.contracts or name in self.contracts:
            return self.user(e, f, None, [self.evx(a) for a in e["a"]])
        return lib.free_call(self, e)

    def user(self, e, f, this, args):
        if f is not None:
            args = self.match_args(f, args)
            return self.call_user(f, this, args, e)
        c = self.contracts.get(e["sig"]) or self.contracts.get(e["fn"])
        self.used_contracts.add(e["fn"])
        return c(self, this, args, None)

    def e_mcall(self, e):
        import lib
        f = self.prog.by_sig.get(e.get("sig"))
        if f is not None or e.get("fn") in self.contracts or e.get("sig") in self.contracts:
            o = self.evx(e["o"])
            if isinstance(o, LV):
                v = self.load(o)
                if isinstance(v, Ptr):
                    o = v.lv
            elif isinstance(o, Ptr):
                o = o.lv
            if not isinstance(o, LV):
                o = self.alloc(o)
            ov = self.load(o)
            args = [self.evx(a) for a in e["a"]]
            if isinstance(ov, Opaque) and not (e.get("fn") in self.contracts or e.get("sig") in self.contracts):
                return lib.opaque_call(self, e, ov, args)
            if isinstance(ov, Obj) and e.get("virt") and f is not None:
                for b in [ov.cls]:
                    g = self.prog.find(f"{b}::{e['name']}", len(f["ps"]))
                    if g is not None:
                        f = g
            return self.user(e, f, o, args)
        return lib.member_call(self, e)

    def e_op(self, e):
        import lib
        f = self.prog.by_sig.get(e.get("sig"))
        if f is not None or e.get("sig") in self.contracts:
            args = [self.evx(a) for a in e["a"]]
            if e.get("method"):
                return self.user(e, f, args[0] if isinstance(args[0], LV) else self.alloc(args[0]), args[1:])
            return self.user(e, f, None, args)
        return lib.op_call(self, e)
