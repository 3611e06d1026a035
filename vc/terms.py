"""Scalar terms (hash-consed), matrix terms, numeric evaluation, derivative.

Sorts: 'R' (real, stands for C++ double/float), 'I' (mathematical integer), 'B'.
"""
import math
import time
import random
from fractions import Fraction as Fr

_tab = {}


class E:
    __slots__ = ("op", "args", "sort", "id", "_h")

    def __repr__(self):
        return show(self)

    def __add__(s, o): return add(s, lift(o))
    def __radd__(s, o): return add(lift(o), s)
    def __sub__(s, o): return sub(s, lift(o))
    def __rsub__(s, o): return sub(lift(o), s)
    def __mul__(s, o): return mul(s, lift(o))
    def __rmul__(s, o): return mul(lift(o), s)
    def __truediv__(s, o): return div(s, lift(o))
    def __neg__(s): return neg(s)
    def __lt__(s, o): return lt(s, lift(o))
    def __le__(s, o): return le(s, lift(o))
    def __gt__(s, o): return lt(lift(o), s)
    def __ge__(s, o): return le(lift(o), s)


def mk(op, args, sort):
    key = (op, args, sort)
    e = _tab.get(key)
    if e is None:
        e = E()
        e.op, e.args, e.sort, e.id = op, args, sort, len(_tab)
        _tab[key] = e
    return e


def I(n): return mk("c", (int(n),), "I")
def R(x): return mk("c", (Fr(x),), "R")


TRUE = mk("c", (True,), "B")
FALSE = mk("c", (False,), "B")


def B(b): return TRUE if b else FALSE


def var(name, sort): return mk("v", (name,), sort)


def app(name, args, sort):
    return mk("app", (name,) + tuple(args), sort)


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return var(f"{prefix}!{_fresh[0]}", sort)


def lift(x, sort=None):
    if isinstance(x, E):
        return x
    if isinstance(x, bool):
        return B(x)
    if isinstance(x, int):
        return I(x) if sort != "R" else R(x)
    if isinstance(x, float):
        return R(Fr(x))
    if isinstance(x, Fr):
        return R(x)
    raise TypeError(f"lift {x!r}")


def isc(e): return e.op == "c"
def cv(e): return e.args[0]


def is_int_const(e): return isinstance(e, int) or (isinstance(e, E) and e.op == "c" and e.sort == "I")


def pyint(e):
    if isinstance(e, int):
        return e
    return e.args[0] if e.op == "c" else None


def toreal(e):
    if e.sort == "R":
        return e
    if e.sort == "B":
        return ite(e, R(1), R(0))
    if isc(e):
        return R(cv(e))
    if e.op == "ite":
        return ite(e.args[0], toreal(e.args[1]), toreal(e.args[2]))
    return mk("toreal", (e,), "R")


def toint(e):
    if e.sort == "I":
        return e
    if e.sort == "B":
        return ite(e, I(1), I(0))
    if isc(e):
        return I(int(cv(e)))
    if e.op == "toreal":
        return e.args[0]
    return mk("trunc", (e,), "I")


def _num(a, b):
    if a.sort == "B":
        a = toint(a)
    if b.sort == "B":
        b = toint(b)
    if a.sort != b.sort:
        return toreal(a), toreal(b)
    return a, b


# sums are kept flat for integers to help syntactic equality
def _lin(e, c, acc):
    if e.op == "c":
        acc[None] = acc.get(None, 0) + c * cv(e)
    elif e.op == "add":
        for x in e.args:
            _lin(x, c, acc)
    elif e.op == "mul" and e.args[0].op == "c":
        _lin(e.args[1], c * cv(e.args[0]), acc)
    else:
        acc[e] = acc.get(e, 0) + c


def _fromlin(acc, sort):
    const = I if sort == "I" else R
    k = acc.pop(None, 0)
    items = [(e, c) for e, c in acc.items() if c != 0]
    items.sort(key=lambda t: t[0].id)
    out = []
    for e, c in items:
        out.append(e if c == 1 else mk("mul", (const(c), e), sort))
    if k != 0 or not out:
        out.append(const(k))
    if len(out) == 1:
        return out[0]
    return mk("add", tuple(out), sort)


def add(a, b):
    a, b = _num(a, b)
    if isc(a) and cv(a) == 0:
        return b
    if isc(b) and cv(b) == 0:
        return a
    acc = {}
    _lin(a, 1, acc)
    _lin(b, 1, acc)
    return _fromlin(acc, a.sort)


def sub(a, b):
    a, b = _num(a, b)
    if isc(b) and cv(b) == 0:
        return a
    acc = {}
    _lin(a, 1, acc)
    _lin(b, -1, acc)
    return _fromlin(acc, a.sort)


def neg(a):
    if a.sort == "B":
        a = toint(a)
    return mul(I(-1) if a.sort == "I" else R(-1), a)


def mul(a, b):
    a, b = _num(a, b)
    if isc(b) and not isc(a):
        a, b = b, a
    if isc(a):
        if cv(a) == 0:
            return a
        if cv(a) == 1:
            return b
        if isc(b):
            return mk("c", (cv(a) * cv(b),), a.sort)
        if b.op in ("add",) or (b.op == "mul" and b.args[0].op == "c"):
            acc = {}
            _lin(b, cv(a), acc)
            return _fromlin(acc, a.sort)
        return mk("mul", (a, b), a.sort)
    # pull constants out
    ka = kb = 1
    if a.op == "mul" and a.args[0].op == "c":
        ka, a = cv(a.args[0]), a.args[1]
    if b.op == "mul" and b.args[0].op == "c":
        kb, b = cv(b.args[0]), b.args[1]
    if a.id > b.id:
        a, b = b, a
    r = mk("mul", (a, b), a.sort)
    k = ka * kb
    if k != 1:
        r = mk("mul", (I(k) if a.sort == "I" else R(k), r), a.sort)
    return r


def div(a, b):
    a, b = toreal(a), toreal(b)
    if isc(b) and cv(b) != 0:
        return mul(R(1 / cv(b)), a)
    if isc(a) and cv(a) == 0:
        return a
    return mk("div", (a, b), "R")


def idiv(a, b):  # C++ truncating division
    if isc(a) and isc(b) and cv(b) != 0:
        q = abs(cv(a)) // abs(cv(b))
        return I(q if (cv(a) < 0) == (cv(b) < 0) else -q)
    return mk("idiv", (a, b), "I")


def imod(a, b):
    if isc(a) and isc(b) and cv(b) != 0:
        return I(int(math.fmod(cv(a), cv(b))))
    return mk("imod", (a, b), "I")


def floori(x):
    x = toreal(x)
    if isc(x):
        return I(math.floor(cv(x)))
    if x.op == "toreal":
        return x.args[0]
    return mk("floori", (x,), "I")


def powi(a, n):
    r = R(1) if a.sort == "R" else I(1)
    for _ in range(n):
        r = mul(r, a)
    return r


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort != b.sort:
        a, b = _num(a, b)
    if a.sort == "B":
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is FALSE:
            return and_(c, a)
        if b is TRUE:
            return or_(not_(c), a)
    if c.op == "not":
        return ite(c.args[0], b, a)
    return mk("ite", (c, a, b), a.sort)


def not_(a):
    if isc(a):
        return B(not cv(a))
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    return mk("not", (a,), "B")


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE or x in out:
            continue
        if x.op == "and":
            for y in x.args:
                if y not in out:
                    out.append(y)
        else:
            out.append(x)
    for x in out:
        if not_(x) in out:
            return FALSE
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else mk("and", tuple(out), "B")


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs])) if len(xs) != 2 else _or2(*xs)


def _or2(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is b:
        return a
    if a is not_(b):
        return TRUE
    return mk("or", (a, b), "B")


def implies(a, b): return _or2(not_(a), b)


def lt(a, b):
    a, b = _num(a, b)
    d = sub(a, b)
    if isc(d):
        return B(cv(d) < 0)
    return mk("lt", (a, b), "B")


def le(a, b):
    a, b = _num(a, b)
    d = sub(a, b)
    if isc(d):
        return B(cv(d) <= 0)
    return mk("le", (a, b), "B")


def eq(a, b):
    if a.sort == "B" or b.sort == "B":
        a = a if a.sort == "B" else not_(eq(a, I(0)))
        b = b if b.sort == "B" else not_(eq(b, I(0)))
        return or_(and_(a, b), and_(not_(a), not_(b)))
    a, b = _num(a, b)
    if a is b:
        return TRUE
    d = sub(a, b)
    if isc(d):
        return B(cv(d) == 0)
    if a.id > b.id:
        a, b = b, a
    return mk("eq", (a, b), "B")


FN1 = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "sqrt": math.sqrt, "acos": math.acos,
       "asin": math.asin, "atan": math.atan, "exp": math.exp, "log": math.log, "floor": math.floor,
       "ceil": math.ceil}
FN2 = {"atan2": math.atan2, "fmod": math.fmod, "powr": math.pow}


def fn(name, *args):
    args = tuple(toreal(a) for a in args)
    a = args[0]
    if name in ("sin", "tan", "asin", "atan") and isc(a) and cv(a) == 0:
        return R(0)
    if name in ("cos", "exp") and isc(a) and cv(a) == 0:
        return R(1)
    if name == "sqrt" and isc(a):
        v = cv(a)
        if v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return R(Fr(n, d))
    if name in ("sin", "cos", "tan", "asin", "atan"):
        s, a2 = _sgn(a)
        if s < 0:
            r = mk("fn", (name, a2), "R")
            return r if name == "cos" else neg(r)
    return mk("fn", (name,) + args, "R")


def _sgn(a):
    """canonical sign of a term: (s, t) with a = s*t"""
    if a.op == "mul" and a.args[0].op == "c" and cv(a.args[0]) < 0:
        return -1, neg(a)
    if a.op == "c" and cv(a) < 0:
        return -1, neg(a)
    if a.op == "add":
        f = a.args[0]
        if f.op == "mul" and f.args[0].op == "c" and cv(f.args[0]) < 0:
            return -1, neg(a)
    return 1, a


def abs_(a): return ite(lt(a, I(0) if a.sort == "I" else R(0)), neg(a), a)


def show(e, d=0):
    if not isinstance(e, E):
        return repr(e)
    if e.op == "c":
        v = e.args[0]
        if isinstance(v, Fr) and v.denominator > 1000:
            return f"{float(v):.6g}"
        return str(v)
    if e.op == "v":
        return e.args[0]
    if d > 7:
        return "…"
    a = [x if isinstance(x, str) else show(x, d + 1) for x in e.args]
    if e.op == "app":
        return f"{a[0]}({','.join(a[1:])})"
    if e.op == "fn":
        return f"{a[0]}({','.join(a[1:])})"
    s = {"add": " + ", "mul": "*", "and": " && ", "or": " || "}.get(e.op)
    if s:
        return "(" + s.join(a) + ")"
    s = {"lt": "<", "le": "<=", "eq": "==", "div": "/"}.get(e.op)
    if s:
        return f"({a[0]} {s} {a[1]})"
    return f"{e.op}({','.join(a)})"


def subst(e, m, memo=None):
    """replace terms by terms (simultaneous); matrix terms are traversed too"""
    if memo is None:
        memo = {}
    r = m.get(e)
    if r is not None:
        return r
    r = memo.get(e)
    if r is not None:
        return r
    if e.op in ("c", "v"):
        return e
    na = []
    ch = False
    for x in e.args:
        if isinstance(x, E):
            y = subst(x, m, memo)
        elif isinstance(x, Mx):
            y = msubst(x, m, memo)
        else:
            y = x
        ch = ch or (y is not x)
        na.append(y)
    r = rebuild(e, na) if ch else e
    memo[e] = r
    return r


def rebuild(e, a):
    op = e.op
    if op == "add":
        r = a[0]
        for x in a[1:]:
            r = add(r, x)
        return r
    if op == "mul":
        return mul(a[0], a[1])
    if op == "div":
        return div(*a)
    if op == "ite":
        return ite(*a)
    if op == "lt":
        return lt(*a)
    if op == "le":
        return le(*a)
    if op == "eq":
        return eq(*a)
    if op == "not":
        return not_(a[0])
    if op == "and":
        return and_(*a)
    if op == "or":
        return or_(*a)
    if op == "toreal":
        return toreal(a[0])
    if op == "trunc":
        return toint(a[0])
    if op == "fn":
        return fn(*a)
    if op == "idiv":
        return idiv(*a)
    if op == "imod":
        return imod(*a)
    if op == "melem":
        return elem(a[0], a[1], a[2])
    if op == "floori":
        return floori(a[0])
    return mk(op, tuple(a), e.sort)


def subterms(e, seen=None):
    """all scalar subterms (also inside matrix terms)"""
    if seen is None:
        seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        todo = list(x.args)
        while todo:
            y = todo.pop()
            if isinstance(y, (E, Mx)):
                st.append(y)
            elif isinstance(y, tuple):
                todo += y
        if isinstance(x, Mx):
            for z in (x.r, x.c):
                if isinstance(z, E):
                    st.append(z)
    return seen


def contains(e, t):
    return t in subterms(e)


# ---------------------------------------------------------------- matrices
_mtab = {}


class Mx:
    """immutable matrix term.  r, c are E of sort I."""
    __slots__ = ("op", "args", "r", "c", "id", "_dense")

    def __repr__(self):
        return mshow(self)

    @property
    def sort(self): return "M"


def mmk(op, args, r, c):
    r, c = lift(r), lift(c)
    key = (op, args, r, c)
    m = _mtab.get(key)
    if m is None:
        m = Mx()
        m.op, m.args, m.r, m.c, m.id = op, args, r, c, len(_mtab)
        m._dense = None
        _mtab[key] = m
    return m


def mshow(m, d=0):
    if d > 4:
        return "…"
    a = ",".join(mshow(x, d + 1) if isinstance(x, Mx) else (show(x, d + 1) if isinstance(x, E) else str(x)[:60]) for x in m.args)
    return f"{m.op}[{show(m.r)}x{show(m.c)}]({a})"


def mvar(name, r, c): return mmk("mv", (name,), r, c)
def mzero(r, c): return mmk("mzero", (), r, c)
def mid(n): return mmk("mid", (), n, n)


def dims(m):
    a, b = pyint(m.r), pyint(m.c)
    return (a, b) if a is not None and b is not None else None


def mdense(rows):
    r, c = len(rows), len(rows[0]) if rows else 0
    rows = tuple(tuple(toreal(lift(x)) for x in row) for row in rows)
    m = mmk("dense", (rows,), r, c)
    m._dense = rows
    return m


def vec(*xs): return mdense([[x] for x in xs])


def mdiagv(v): return mmk("mdiagv", (v,), v.r, v.r)       # diagonal matrix of a column vector


def elem(m, i, j):
    """scalar at (i, j); i, j are E ints (assumed in range)"""
    i, j = lift(i), lift(j)
    op = m.op
    if op == "dense":
        rows = m.args[0]
        pi, pj = pyint(i), pyint(j)
        if pi is not None and pj is not None:
            return rows[pi][pj]
        # select by ite chain
        r = None
        for a in reversed(range(len(rows))):
            if pi is not None and a != pi:
                continue
            rr = None
            for b in reversed(range(len(rows[a]))):
                if pj is not None and b != pj:
                    continue
                rr = rows[a][b] if rr is None else ite(eq(j, I(b)), rows[a][b], rr)
            r = rr if r is None else ite(eq(i, I(a)), rr, r)
        return r
    if op == "mzero":
        return R(0)
    if op == "mid":
        return ite(eq(i, j), R(1), R(0))
    if op == "mconst":
        return m.args[0]
    if op == "mv":
        return app("M:" + m.args[0], (i, j), "R")
    if op == "fmat":       # family of matrices indexed by integer terms
        return app("M:" + m.args[0], tuple(m.args[1:]) + (i, j), "R")
    if op == "mtr":
        return elem(m.args[0], j, i)
    if op == "madd":
        return add(elem(m.args[0], i, j), elem(m.args[1], i, j))
    if op == "mscale":
        return mul(m.args[0], elem(m.args[1], i, j))
    if op == "mblk":
        b, i0, j0 = m.args
        return elem(b, add(i, i0), add(j, j0))
    if op == "mset":
        b, i0, j0, s = m.args
        c = and_(le(i0, i), lt(i, add(i0, s.r)), le(j0, j), lt(j, add(j0, s.c)))
        if c is FALSE:
            return elem(b, i, j)
        return ite(c, elem(s, sub(i, i0), sub(j, j0)), elem(b, i, j))
    if op == "mite":
        return ite(m.args[0], elem(m.args[1], i, j), elem(m.args[2], i, j))
    if op == "mdiagv":
        return ite(eq(i, j), elem(m.args[0], i, I(0)), R(0))
    if op == "mdiagof":
        return elem(m.args[0], i, i)
    if op == "mcw":
        return fn(m.args[0], elem(m.args[1], i, j))
    if op == "mcwmul":
        return mul(elem(m.args[0], i, j), elem(m.args[1], i, j))
    if op == "mvcat":
        a, b = m.args
        return ite(lt(i, a.r), elem(a, i, j), elem(b, sub(i, a.r), j))
    if op == "mresize":     # conservativeResize to a smaller or equal size
        return elem(m.args[0], i, j)
    if op == "mfn":         # elementwise definition: (bound i, bound j, body)
        bi, bj, body = m.args
        return subst(body, {bi: i, bj: j})
    if op == "mmul":
        a, b = m.args
        k = pyint(a.c)
        if k is None:
            k = pyint(b.r)
        if k is not None and k <= 24:
            s = R(0)
            for t in range(k):
                s = add(s, mul(elem(a, i, I(t)), elem(b, I(t), j)))
            return s
    return mk("melem", (m, i, j), "R")


def dense(m):
    d = dims(m)
    if d is None:
        return None
    if m._dense is None:
        if d[0] * d[1] > 700:
            return None
        if m.op == "mmul":
            A, Bm = dense(m.args[0]), dense(m.args[1])
            if A is not None and Bm is not None:
                n = len(Bm)
                m._dense = tuple(tuple(_dot([A[i][k] for k in range(n)], [Bm[k][j] for k in range(n)]) for j in range(d[1])) for i in range(d[0]))
                return m._dense
        m._dense = tuple(tuple(elem(m, I(i), I(j)) for j in range(d[1])) for i in range(d[0]))
    return m._dense


def _dot(a, b):
    s = R(0)
    for x, y in zip(a, b):
        s = add(s, mul(x, y))
    return s


def small(m):
    d = dims(m)
    return d is not None and d[0] * d[1] <= 36


def norm_small(m):
    """fixed-size matrices are represented by their entries"""
    if m.op != "dense" and small(m):
        d = dense(m)
        if d is not None:
            if any(x.op == "melem" for row in d for x in row):
                return m
            return mdense(d)
    return m


def madd(a, b):
    if a.op == "mzero":
        return b
    if b.op == "mzero":
        return a
    return norm_small(mmk("madd", (a, b), a.r if pyint(a.r) is not None else b.r, a.c if pyint(a.c) is not None else b.c))


def mscale(k, a):
    k = toreal(lift(k))
    if isc(k) and cv(k) == 1:
        return a
    return norm_small(mmk("mscale", (k, a), a.r, a.c))


def mneg(a): return mscale(R(-1), a)
def msub(a, b): return madd(a, mneg(b))


def mmul(a, b):
    if a.op == "mid":
        return b
    if b.op == "mid":
        return a
    if small(a) and small(b):
        A, Bd = dense(a), dense(b)
        if A is not None and Bd is not None and len(A[0]) == len(Bd):
            return mdense([[_dot(A[i], [Bd[k][j] for k in range(len(Bd))]) for j in range(len(Bd[0]))] for i in range(len(A))])
    return mmk("mmul", (a, b), a.r, b.c)


def mtr(a):
    if a.op == "mtr":
        return a.args[0]
    return norm_small(mmk("mtr", (a,), a.c, a.r))


def minv(a):
    if a.op == "minv":
        return a.args[0]
    if dims(a) == (1, 1):
        return mdense([[div(R(1), elem(a, 0, 0))]])
    return mmk("minv", (a,), a.r, a.c)


def mblk(a, i, j, r, c):
    i, j, r, c = lift(i), lift(j), lift(r), lift(c)
    if i is I(0) and j is I(0) and r is a.r and c is a.c:
        return a
    if a.op == "mblk":
        b, i0, j0 = a.args
        return mblk(b, add(i, i0), add(j, j0), r, c)
    if a.op == "mset":
        b, i0, j0, s = a.args
        if i0 is i and j0 is j and s.r is r and s.c is c:
            return s
        # disjoint by constants
        for (p, pr, q, qr) in ((i, r, i0, s.r), (j, c, j0, s.c)):
            if le(add(p, pr), q) is TRUE or le(add(q, qr), p) is TRUE:
                return mblk(b, i, j, r, c)
    if a.op == "mzero":
        return mzero(r, c)
    return norm_small(mmk("mblk", (a, i, j), r, c))


def mset(a, i, j, s):
    i, j = lift(i), lift(j)
    if i is I(0) and j is I(0) and s.r is a.r and s.c is a.c:
        return s
    if s.r is I(0) or s.c is I(0):
        return a
    return norm_small(mmk("mset", (a, i, j, s), a.r, a.c))


def mite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    return norm_small(mmk("mite", (c, a, b), ite(c, a.r, b.r), ite(c, a.c, b.c)))


def msubst(m, mp, memo=None):
    if memo is None:
        memo = {}
    r = mp.get(m)
    if r is not None:
        return r
    r = memo.get(m)
    if r is not None:
        return r
    na = []
    ch = False
    for x in m.args:
        if isinstance(x, E):
            y = subst(x, mp, memo)
        elif isinstance(x, Mx):
            y = msubst(x, mp, memo)
        elif isinstance(x, tuple):
            y = tuple(tuple(subst(z, mp, memo) for z in row) for row in x)
            if all(p is q for ra, rb in zip(x, y) for p, q in zip(ra, rb)):
                y = x
        else:
            y = x
        ch = ch or (y is not x)
        na.append(y)
    nr, nc = subst(m.r, mp, memo), subst(m.c, mp, memo)
    if not ch and nr is m.r and nc is m.c:
        r = m
    else:
        r = mrebuild(m.op, tuple(na), nr, nc)
    memo[m] = r
    return r


def mrebuild(op, a, r, c):
    f = {"madd": madd, "mscale": mscale, "mmul": mmul, "mtr": mtr, "minv": minv, "mite": mite, "mset": mset}.get(op)
    if f:
        return f(*a)
    if op == "mblk":
        return mblk(a[0], a[1], a[2], r, c)
    if op == "dense":
        return mdense(a[0])
    return norm_small(mmk(op, a, r, c))


def cross(a, b):
    A = [elem(a, k, 0) for k in range(3)]
    Bv = [elem(b, k, 0) for k in range(3)]
    return vec(A[1] * Bv[2] - A[2] * Bv[1], A[2] * Bv[0] - A[0] * Bv[2], A[0] * Bv[1] - A[1] * Bv[0])


# ---------------------------------------------------------------- numeric evaluation
class NumErr(Exception):
    pass


class Env:
    """lazy random model: variables, uninterpreted functions and matrices get values on demand.
    base: dict var-term -> number.  Matrices are numpy arrays."""

    def __init__(self, seed=0, base=None, hooks=None, mats=None):
        import numpy as np
        self.np = np
        self.rng = random.Random(seed)
        self.base = dict(base or {})
        self.mats = dict(mats or {})
        self.memo = {}
        self.fun = {}
        self.hooks = hooks or {}
        self.t_end = None

    def real(self):
        return self.rng.choice([self.rng.uniform(-2, 2), self.rng.uniform(-2, 2), self.rng.uniform(-20, 20), self.rng.uniform(0, 1)])

    def ev(self, e):
        if isinstance(e, Mx):
            return self.evm(e)
        r = self.memo.get(e)
        if r is not None:
            return r
        r = self._ev(e)
        if isinstance(r, float) and (math.isnan(r) or math.isinf(r)):
            raise NumErr("nan")
        self.memo[e] = r
        return r

    def _ev(self, e):
        op = e.op
        if op == "c":
            v = e.args[0]
            return float(v) if e.sort == "R" else v
        if e in self.base:
            return self.base[e]
        if op == "v":
            if e.sort == "R":
                v = self.real()
            elif e.sort == "I":
                v = self.rng.randint(0, 6)
            else:
                v = self.rng.random() < 0.5
            self.base[e] = v
            return v
        if op == "add":
            return sum(self.ev(x) for x in e.args)
        if op == "mul":
            return self.ev(e.args[0]) * self.ev(e.args[1])
        if op == "div":
            d = self.ev(e.args[1])
            if d == 0:
                raise NumErr("div0")
            return self.ev(e.args[0]) / d
        if op == "ite":
            return self.ev(e.args[1]) if self.ev(e.args[0]) else self.ev(e.args[2])
        if op == "lt":
            return self.ev(e.args[0]) < self.ev(e.args[1])
        if op == "le":
            return self.ev(e.args[0]) <= self.ev(e.args[1])
        if op == "eq":
            return self.ev(e.args[0]) == self.ev(e.args[1])
        if op == "not":
            return not self.ev(e.args[0])
        if op == "and":
            return all(self.ev(x) for x in e.args)
        if op == "or":
            return any(self.ev(x) for x in e.args)
        if op == "toreal":
            return float(self.ev(e.args[0]))
        if op == "trunc":
            return int(self.ev(e.args[0]))
        if op == "idiv":
            a, b = self.ev(e.args[0]), self.ev(e.args[1])
            if b == 0:
                raise NumErr("idiv0")
            return int(a / b)
        if op == "imod":
            a, b = self.ev(e.args[0]), self.ev(e.args[1])
            if b == 0:
                raise NumErr("imod0")
            return int(math.fmod(a, b))
        if op == "fn":
            xs = [self.ev(x) for x in e.args[1:]]
            try:
                if len(xs) == 1:
                    return float(FN1[e.args[0]](xs[0]))
                return float(FN2[e.args[0]](*xs))
            except (ValueError, OverflowError) as ex:
                raise NumErr(str(ex))
        if op == "melem":
            m = self.evm(e.args[0])
            i, j = self.ev(e.args[1]), self.ev(e.args[2])
            try:
                return float(m[i, j])
            except IndexError:
                raise NumErr("range")
        if op == "app":
            name = e.args[0]
            xs = tuple(self.ev(x) for x in e.args[1:])
            h = self.hooks.get(name)
            if h:
                return h(self, *xs)
            if name.startswith("M:") and len(xs) == 2 and name[2:] in self.mats:
                m = self.mats[name[2:]]
                try:
                    return float(m[xs[0], xs[1]])
                except IndexError:
                    raise NumErr("range")
            key = (name, tuple(round(x, 12) if isinstance(x, float) else x for x in xs))
            if key not in self.fun:
                self.fun[key] = self.real() if e.sort == "R" else (self.rng.randint(0, 3) if e.sort == "I" else self.rng.random() < 0.5)
            return self.fun[key]
        if op == "floori":
            return math.floor(self.ev(e.args[0]))
        if op == "forall":
            k, body = e.args
            for t in range(0, 14):
                if not self.over({k: t}).ev(body):
                    return False
            return True
        if op == "psum":
            n, k, body = e.args
            n = self.ev(n)
            s = 0
            for t in range(max(0, n)):
                s += self.over({k: t}).ev(body)
            return s
        raise NumErr("op " + op)

    def over(self, extra, mats=None):
        s = Env.__new__(Env)
        s.__dict__.update(self.__dict__)
        s.memo = {}
        s.base = _Over(self.base, extra)
        if mats:
            s.mats = _Over(self.mats, mats)
        return s

    def evm(self, m):
        np = self.np
        r = self.memo.get(m)
        if r is not None:
            return r
        if self.t_end and time.time() > self.t_end:
            raise NumErr("time")
        r = self._evm(m)
        if not np.all(np.isfinite(r)):
            raise NumErr("nan")
        self.memo[m] = r
        return r

    def shape(self, m):
        r, c = self.ev(m.r), self.ev(m.c)
        if r < 0 or c < 0 or r > 200 or c > 200:
            raise NumErr("shape")
        return r, c

    def _evm(self, m):
        np = self.np
        op = m.op
        if op == "dense":
            return np.array([[self.ev(x) for x in row] for row in m.args[0]], dtype=float).reshape(pyint(m.r), pyint(m.c))
        if op == "mv" and m.args[0] in self.mats:
            return self.mats[m.args[0]]
        if op == "mv":
            r, c = self.shape(m)
            a = np.array([[self.real() for _ in range(c)] for _ in range(r)], dtype=float).reshape(r, c)
            tag = m.args[0]
            if tag.endswith("~psd"):
                a = a @ a.T * 0.1 + np.eye(r)
            if tag.endswith("~diag"):
                a = np.diag(np.abs(np.diag(a)) + 0.1)
            if tag.endswith("~upper"):
                a = np.triu(a)
            self.mats[m.args[0]] = a
            return a
        if op == "mloop":
            base, k, step, head, n = m.args
            cur = np.array(self.evm(base))
            for t in range(max(0, self.ev(n))):
                cur = self.over({k: t}, {head.args[0]: cur}).evm(step)
            return cur
        if op == "mset":
            cur = np.array(self.evm(m.args[0]))
            i, j, b = self.ev(m.args[1]), self.ev(m.args[2]), self.evm(m.args[3])
            if i < 0 or j < 0 or i + b.shape[0] > cur.shape[0] or j + b.shape[1] > cur.shape[1]:
                raise NumErr("set")
            cur[i:i + b.shape[0], j:j + b.shape[1]] = b
            return cur
        if op == "mite":
            return self.evm(m.args[1] if self.ev(m.args[0]) else m.args[2])
        if op == "mmul":
            return self.evm(m.args[0]) @ self.evm(m.args[1])
        if op == "madd":
            return self.evm(m.args[0]) + self.evm(m.args[1])
        if op == "mscale":
            return self.ev(m.args[0]) * self.evm(m.args[1])
        if op == "mtr":
            return self.evm(m.args[0]).T
        if op == "minv":
            try:
                a = self.evm(m.args[0])
                if np.linalg.cond(a) > 1e10:
                    raise NumErr("cond")
                return np.linalg.inv(a)
            except np.linalg.LinAlgError:
                raise NumErr("inv")
        if op == "mqr":      # R of a QR decomposition with nonneg diagonal is not needed: any R with R'R fixed
            a = np.vstack([self.evm(x) for x in m.args])
            q, r = np.linalg.qr(a, mode="complete")
            n = a.shape[1]
            out = np.zeros((n, n))
            out[:min(n, r.shape[0]), :] = r[:n, :]
            return out
        if op == "mqrq":
            a = self.evm(m.args[0])
            q, r = np.linalg.qr(a, mode="complete")
            return q
        if op == "mblk":
            b = self.evm(m.args[0])
            i, j = self.ev(m.args[1]), self.ev(m.args[2])
            r, c = self.shape(m)
            if i < 0 or j < 0 or i + r > b.shape[0] or j + c > b.shape[1]:
                raise NumErr("blk")
            return b[i:i + r, j:j + c]
        r, c = self.shape(m)
        out = np.zeros((r, c))
        for i in range(r):
            for j in range(c):
                out[i, j] = self.ev(elem(m, I(i), I(j)))
        return out


class _Over(dict):
    def __init__(self, base, extra):
        self.b, self.x = base, extra

    def __contains__(self, k): return k in self.x or k in self.b
    def __getitem__(self, k): return self.x[k] if k in self.x else self.b[k]
    def __setitem__(self, k, v): self.b[k] = v
    def get(self, k, d=None): return self[k] if k in self else d


# ---------------------------------------------------------------- derivative
def diff(e, x, dmap=None):
    """d e / d x for real terms; dmap: optional {var: derivative term} (total derivative)"""
    memo = {}
    dmap = dmap or {x: R(1)}

    def d(t):
        r = memo.get(t)
        if r is not None:
            return r
        if t in dmap:
            r = dmap[t]
        elif t.op in ("c", "v", "toreal", "trunc"):
            r = R(0)
        elif t.op == "app":
            if any(v in dmap for v in subterms(t) if isinstance(v, E) and v.op == "v"):
                raise ValueError("derivative of opaque function")
            r = R(0)
        elif t.op == "add":
            r = R(0)
            for y in t.args:
                r = add(r, d(y))
        elif t.op == "mul":
            a, b = t.args
            r = add(mul(d(a), b), mul(a, d(b)))
        elif t.op == "div":
            a, b = t.args
            r = div(sub(mul(d(a), b), mul(a, d(b))), mul(b, b))
        elif t.op == "ite":
            r = ite(t.args[0], d(t.args[1]), d(t.args[2]))
        elif t.op == "fn":
            f, a = t.args[0], t.args[1]
            if f == "sin":
                r = mul(fn("cos", a), d(a))
            elif f == "cos":
                r = neg(mul(fn("sin", a), d(a)))
            elif f == "sqrt":
                r = div(d(a), mul(R(2), t))
            elif f == "tan":
                r = mul(add(R(1), mul(t, t)), d(a))
            else:
                raise ValueError("diff " + f)
        else:
            raise ValueError("diff " + t.op)
        memo[t] = r
        return r
    return d(e)
