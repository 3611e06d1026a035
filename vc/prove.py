"""Back ends: polynomial/rational normal form, noncommutative matrix-ring normal form,
z3 (LIA + UF + reals), and numeric refutation of failed goals."""
import os
import time
from fractions import Fraction as Fr
import z3
from terms import *


class GiveUp(Exception):
    pass


# ------------------------------------------------------------------ polynomials
# poly: dict monomial -> Fr ; monomial: tuple of (atom E, exp) sorted by atom id
class Poly:
    LIMIT = 60000

    def __init__(self, rel=None):
        self.rel = rel or {}       # atom -> poly for atom**2
        self.memo = {}
        self.sqmemo = {}

    def padd(self, a, b, k=1):
        if len(a) < len(b) and k == 1:
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def pmul(self, a, b):
        if len(a) * len(b) > self.LIMIT * 4:
            raise GiveUp("poly size")
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = self.mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return self.reduce(r)

    @staticmethod
    def mmul(m1, m2):
        if not m1:
            return m2
        if not m2:
            return m1
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        return tuple(sorted(d.items(), key=lambda t: t[0].id))

    def square_of(self, a):
        """poly equal to a**2, or None"""
        if a in self.rel:
            return self.rel[a]
        if a.op == "fn" and a.args[0] == "sin":
            c = mk("fn", ("cos", a.args[1]), "R")
            return {(): Fr(1), ((c, 2),): Fr(-1)}
        if a.op == "fn" and a.args[0] == "sqrt":
            if a not in self.sqmemo:
                n, d = self.rat(a.args[1])
                self.sqmemo[a] = n if not d else None
            return self.sqmemo[a]
        return None

    def reduce(self, p):
        while True:
            todo = None
            for m in p:
                for a, e in m:
                    if e >= 2:
                        s = self.square_of(a)
                        if s is not None:
                            todo = (m, a, e, s)
                            break
                if todo:
                    break
            if not todo:
                return p
            out = {}
            for m, c in p.items():
                hit = None
                for a, e in m:
                    if e >= 2:
                        s = self.square_of(a)
                        if s is not None:
                            hit = (a, e, s)
                            break
                if not hit:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
                    continue
                a, e, s = hit
                rest = tuple((x, y) if x is not a else (x, y - 2) for x, y in m if not (x is a and y == 2))
                for m2, c2 in s.items():
                    mm = self.mmul(rest, m2)
                    v = out.get(mm, 0) + c * c2
                    if v:
                        out[mm] = v
                    else:
                        out.pop(mm, None)
            p = out
            if len(p) > self.LIMIT:
                raise GiveUp("poly size")

    # rational function: (num poly, den dict: key(frozenset of poly items) -> exp)
    def rat(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self._rat(e)
            self.memo[e] = r
        return r

    def dpoly(self, d):
        p = {(): Fr(1)}
        for k, e in d.items():
            for _ in range(e):
                p = self.pmul(p, dict(k))
        return p

    def radd(self, a, b):
        (n1, d1), (n2, d2) = a, b
        if d1 == d2:
            return self.padd(n1, n2), d1
        l = dict(d1)
        for k, e in d2.items():
            l[k] = max(l.get(k, 0), e)
        m1 = {k: e - d1.get(k, 0) for k, e in l.items() if e > d1.get(k, 0)}
        m2 = {k: e - d2.get(k, 0) for k, e in l.items() if e > d2.get(k, 0)}
        return self.padd(self.pmul(n1, self.dpoly(m1)), self.pmul(n2, self.dpoly(m2))), l

    def rmul(self, a, b):
        (n1, d1), (n2, d2) = a, b
        d = dict(d1)
        for k, e in d2.items():
            d[k] = d.get(k, 0) + e
        return self.cancel(self.pmul(n1, n2), d)

    def cancel(self, n, d):
        """cancel monomial factors and exact full-numerator factors"""
        if not n:
            return {}, {}
        if not d:
            return n, d
        d = dict(d)
        for k in list(d):
            p = dict(k)
            while k in d:
                if len(p) == 1:
                    (m, c), = p.items()
                    ok = all(all(dict(mm).get(a, 0) >= e for a, e in m) for mm in n)
                    if not ok:
                        break
                    nn = {}
                    for mm, cc in n.items():
                        dd = dict(mm)
                        for a, e in m:
                            dd[a] -= e
                        nn[tuple(sorted(((a, e) for a, e in dd.items() if e), key=lambda t: t[0].id))] = cc / c
                    n = nn
                else:
                    q = self.exact_div(n, p)
                    if q is None:
                        break
                    n = q
                d[k] -= 1
                if d[k] == 0:
                    del d[k]
        return n, d

    def exact_div(self, n, p):
        if len(n) % 1 or len(n) < len(p) or len(n) > 400:
            return None
        # same poly up to scale
        if set(n) == set(p):
            m0 = next(iter(n))
            k = n[m0] / p[m0]
            if all(n[m] == k * p[m] for m in n):
                return {(): k}
        return None

    def _rat(self, e):
        op = e.op
        if op == "c":
            v = e.args[0]
            return ({(): Fr(v)} if v else {}), {}
        if op == "add":
            r = ({}, {})
            for x in e.args:
                r = self.radd(r, self.rat(x))
            return r
        if op == "mul":
            x, y = e.args
            if x is y and x.op == "fn" and x.args[0] == "sqrt":
                return self.rat(x.args[1])
            return self.rmul(self.rat(x), self.rat(y))
        if op == "div":
            n1, d1 = self.rat(e.args[0])
            n2, d2 = self.rat(e.args[1])
            if not n2:
                raise GiveUp("division by zero")
            # 1/(n2/d2) = d2/n2
            num = self.pmul(n1, self.dpoly(d2))
            den = dict(d1)
            # factor a monomial content out of n2
            if len(n2) == 1:
                (m, c), = n2.items()
                num = {k: v / c for k, v in num.items()}
                for a, ex in m:
                    key = frozenset({(((a, 1),), Fr(1))})
                    den[key] = den.get(key, 0) + ex
            else:
                lead = max(n2, key=lambda m: (sum(x for _, x in m), [(a.id, x) for a, x in m]))
                c = n2[lead]
                key = frozenset((k, v / c) for k, v in n2.items())
                num = {k: v / c for k, v in num.items()}
                den[key] = den.get(key, 0) + 1
            return self.cancel(num, den)
        if op == "toreal":
            return self.rat(e.args[0]) if e.args[0].op in ("add", "mul", "c") else ({((e.args[0], 1),): Fr(1)}, {})
        if op == "fn":
            a = self.canon_fn(e)
            if a.op != "fn":
                return self.rat(a)
            e = a
        if op == "psum":
            return self.rat_psum(e)
        return {((e, 1),): Fr(1)}, {}

    def rat_psum(self, e):
        """sum_{t<n} of a rational body: linear in the monomials of the body; factors without t are pulled out"""
        n, k, body = e.args
        if e.sort != "R":
            return {((e, 1),): Fr(1)}, {}
        d = var(f"t!{depth_psum(body)}", "I")
        b = subst(body, {k: d}) if k is not d else body
        if not hasattr(self, "pscache"):
            self.pscache, self.depmemo = {}, {}
        def dep(a):
            r = self.depmemo.get((a, d))
            if r is None:
                r = self.depmemo[(a, d)] = d in subterms(a)
            return r
        num, den = self.rat(b)
        num = self.reduce(num)
        if any(dep(a) for key in den for m, _ in key for a, _ in m):
            key = (n, frozenset(num.items()), frozenset(den.items()))
            return {((self.pscache.setdefault(key, e), 1),): Fr(1)}, {}
        out = {}
        for m, c in num.items():
            ins = tuple((a, x) for a, x in m if dep(a))
            rest = tuple((a, x) for a, x in m if not dep(a))
            if not ins:
                rn, rd = self.rat(toreal(n))
                pm = rn
            else:
                key = (n, ins)
                at = self.pscache.get(key)
                if at is None:
                    bd = R(1)
                    for a, x in ins:
                        for _ in range(x):
                            bd = mul(bd, toreal(a) if a.sort == "I" else a)
                    at = self.pscache[key] = mk("psum", (n, d, bd), "R")
                pm = {((at, 1),): Fr(1)}
            out = self.padd(out, self.pmul({rest: c}, pm))
        return self.cancel(out, den)

    def canon(self, e):
        """canonical term of a real term (through the normal form)"""
        n, d = self.rat(e)
        return (frozenset(n.items()), frozenset(d.items()))

    def canon_fn(self, e):
        """unify function atoms whose arguments have equal normal forms"""
        if not hasattr(self, "fncache"):
            self.fncache = {}
        try:
            key = (e.args[0],) + tuple(self.canon(x) for x in e.args[1:])
        except GiveUp:
            return e
        r = self.fncache.get(key)
        if r is None:
            # sin(-x) etc.
            if e.args[0] in ("sin", "cos") and len(e.args) == 2:
                n, d = self.rat(e.args[1])
                nk = (e.args[0], (frozenset((m, -c) for m, c in n.items()), frozenset(d.items())))
                r = self.fncache.get(nk)
                if r is not None:
                    return r if e.args[0] == "cos" else neg(r)
                if not n:
                    return R(0) if e.args[0] == "sin" else R(1)
            r = self.fncache[key] = e
        return r

    def zero(self, e):
        n, d = self.rat(e)
        n = self.reduce(n)
        return not n


def depth_psum(e):
    return max([1 + depth_psum(x.args[2]) for x in subterms(e) if isinstance(x, E) and x.op == "psum"] or [0])


# ------------------------------------------------------------------ matrix ring
class Ring:
    """noncommutative normal form: dict (tuple of factors) -> coefficient E ; factor = (atom Mx, transposed)"""

    def __init__(self, prover):
        self.P = prover
        self.memo = {}
        self.reps = []

    def nf(self, m):
        r = self.memo.get(m)
        if r is None:
            r = self._nf(m)
            self.memo[m] = r
        return r

    def addto(self, d, mono, c):
        v = d.get(mono)
        v = c if v is None else add(v, c)
        if isc(v) and cv(v) == 0:
            d.pop(mono, None)
        else:
            d[mono] = v

    def tr(self, nf):
        out = {}
        for mono, c in nf.items():
            self.addto(out, tuple(self.ftr(f) for f in reversed(mono)), c)
        return out

    def symmetric(self, a):
        if a.op == "mv":
            return a.args[0].endswith(("~psd", "~diag", "~sym"))
        if a.op == "minv":
            n = self.nf(a.args[0])
            return self.same(n, self.tr(n))
        if a.op in ("mdiagv", "mid"):
            return True
        if a.op == "mcw" and self.isdiag(a.args[1]):
            return True
        if dims(a) == (1, 1):
            return True
        return False

    @staticmethod
    def isdiag(a):
        return (a.op == "mv" and a.args[0].endswith("~diag")) or a.op in ("mdiagv", "mid")

    def ftr(self, f):
        a, t = f
        if self.symmetric(a):
            return (a, False)
        return (a, not t)

    def atom(self, m):
        # reuse an atom already seen that is provably equal elementwise
        if m.op in ("mv", "minv", "mqr", "mqrq"):
            return m
        for r in self.reps:
            if r is m:
                return r
        for r in self.reps:
            if r.r is m.r and r.c is m.c and self.P.mat_eq_quick(r, m):
                return r
        self.reps.append(m)
        return m

    def _nf(self, m):
        op = m.op
        if op == "mzero":
            return {}
        if op == "mid":
            return {(): R(1)}
        if op == "madd":
            out = dict(self.nf(m.args[0]))
            for k, c in self.nf(m.args[1]).items():
                self.addto(out, k, c)
            return out
        if op == "mscale":
            return {k: mul(m.args[0], c) for k, c in self.nf(m.args[1]).items()}
        if op == "mtr":
            return self.tr(self.nf(m.args[0]))
        if op == "mmul":
            out = {}
            for k1, c1 in self.nf(m.args[0]).items():
                for k2, c2 in self.nf(m.args[1]).items():
                    for k, c in self.simp(k1 + k2).items():
                        self.addto(out, k, mul(mul(c1, c2), c))
            return out
        if op == "minv":
            # canonical inverse atom: one per normal form of the argument
            n = self.nf(m.args[0])
            if not hasattr(self, "invs"):
                self.invs = []
            for (n2, at) in self.invs:
                if self.same(n, n2):
                    return {((at, False),): R(1)}
            self.invs.append((n, m))
            return {((m, False),): R(1)}
        if op == "mqr":
            if not hasattr(self, "qrs"):
                self.qrs = []
            ns = [self.nf(x) for x in m.args]
            for (n2, at) in self.qrs:
                if len(n2) == len(ns) and all(self.same(a, b) for a, b in zip(ns, n2)):
                    return {((at, False),): R(1)}
            self.qrs.append((ns, m))
            return {((m, False),): R(1)}
        a = self.atom(m)
        return {((a, False),): R(1)}

    def simp(self, mono):
        """rewrite a monomial; returns nf"""
        for i in range(len(mono) - 1):
            (a, ta), (b, tb) = mono[i], mono[i + 1]
            # R' R -> sum of Gram matrices
            if a is b and a.op == "mqr" and ta and not tb:
                out = {}
                for x in a.args:
                    n = self.nf(x)
                    t = self.tr(n)
                    for k1, c1 in t.items():
                        for k2, c2 in n.items():
                            for k, c in self.simp(mono[:i] + k1 + k2 + mono[i + 2:]).items():
                                self.addto(out, k, mul(mul(c1, c2), c))
                return out
            if a is b and a.op == "mqrq" and ta != tb:
                return self.simp(mono[:i] + mono[i + 2:])
            # sqrt(D) sqrt(D) -> D for a diagonal nonnegative D
            if a is b and a.op == "mcw" and a.args[0] == "sqrt" and self.isdiag(a.args[1]):
                return self.simp(mono[:i] + ((a.args[1], False),) + mono[i + 2:])
            # inverse rules
            for (inv, other, left) in ((a, b, True), (b, a, False)):
                if inv.op == "minv":
                    n = self.nf(inv.args[0])
                    lead = None
                    for k, c in n.items():
                        if len(k) == 1 and isc(c) and cv(c) == 1 and not any(
                                f[0] is k[0][0] for k2 in n if k2 is not k for f in k2):
                            lead = k
                    if lead is not None and lead[0][0] is other and (mono[i + 1] if left else mono[i]) == lead[0]:
                        out = {}
                        for k, c in self.simp(mono[:i] + mono[i + 2:]).items():
                            self.addto(out, k, c)
                        for k, c in n.items():
                            if k is lead or k == lead:
                                continue
                            mm = mono[:i + 1] + k + mono[i + 2:] if left else mono[:i] + k + mono[i + 1:]
                            for k3, c3 in self.simp(mm).items():
                                self.addto(out, k3, neg(mul(c, c3)))
                        return out
        return {mono: R(1)}

    def same(self, a, b):
        keys = set(a) | set(b)
        for k in keys:
            d = sub(a.get(k, R(0)), b.get(k, R(0)))
            if not (isc(d) and cv(d) == 0):
                try:
                    if not self.P.poly.zero(d):
                        return False
                except GiveUp:
                    return False
        return True

    def equal(self, a, b):
        return self.same(self.nf(a), self.nf(b))


# ------------------------------------------------------------------ prover
class Ob:
    def __init__(self, name, fn, status, backend, t, detail=""):
        self.name, self.fn, self.status, self.backend, self.t, self.detail = name, fn, status, backend, t, detail
        self.witness = None
        self.timeout = False     # the solver gave no answer within its limit: undecided, not failed


class Prover:
    def __init__(self, timeout_ms=4000):
        self.timeout = timeout_ms
        self.poly = Poly()
        self.ring = Ring(self)
        self.obs = []
        self.axioms = {}        # app name -> f(list of arg tuples) -> [facts]
        self.global_facts = []
        self.hooks = {}         # numeric meaning of uninterpreted functions
        self.zc = {}
        self.solver_time = 0.0
        self.queries = 0
        self.ent_cache = {}
        self.psreps = []
        self.current_fn = "?"
        self.deadline = None
        self.counts = {}
        self.smtlog = None
        self.unknowns = self.unk0 = 0
        self.rl_cache = {}
        self.si_cache = {}
        self.sumfacts = {}
        self.unk_keys = set()

    # ---------------- z3 translation
    def z(self, e):
        r = self.zc.get(e)
        if r is not None:
            return r
        r = self._z(e)
        self.zc[e] = r
        return r

    def _z(self, e):
        op = e.op
        if op == "c":
            v = e.args[0]
            if e.sort == "B":
                return z3.BoolVal(v)
            if e.sort == "I":
                return z3.IntVal(v)
            return z3.RealVal(str(v))
        srt = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}
        if op == "v":
            return z3.Const(e.args[0], srt[e.sort])
        if op == "app":
            a = [self.z(x) for x in e.args[1:]]
            if not a:
                return z3.Const("app_" + e.args[0], srt[e.sort])
            f = z3.Function("app_" + e.args[0], *[x.sort() for x in a], srt[e.sort])
            return f(*a)
        if op == "fn":
            a = [self.z(x) for x in e.args[1:]]
            f = z3.Function("fn_" + e.args[0], *[z3.RealSort()] * len(a), z3.RealSort())
            return f(*a)
        if op == "melem":
            m = self.canon_mat(e.args[0])
            f = z3.Function(f"ME_{m}", z3.IntSort(), z3.IntSort(), z3.RealSort())
            return f(self.z(e.args[1]), self.z(e.args[2]))
        if op == "psum":
            rep = self.psrep(e)
            f = z3.Function(f"PS_{rep}", z3.IntSort(), srt[e.sort])
            return f(self.z(e.args[0]))
        if op == "forall":
            return z3.ForAll([self.z(e.args[0])], self.z(e.args[1]))
        a = [self.z(x) for x in e.args]
        if op == "floori":
            return z3.ToInt(a[0])
        if op == "add":
            r = a[0]
            for x in a[1:]:
                r = r + x
            return r
        if op == "mul":
            return a[0] * a[1]
        if op == "div":
            return a[0] / a[1]
        if op == "ite":
            return z3.If(*a)
        if op == "lt":
            return a[0] < a[1]
        if op == "le":
            return a[0] <= a[1]
        if op == "eq":
            return a[0] == a[1]
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(*a)
        if op == "or":
            return z3.Or(*a)
        if op == "toreal":
            return z3.ToReal(a[0])
        if op == "trunc":
            return z3.If(a[0] >= 0, z3.ToInt(a[0]), -z3.ToInt(-a[0]))
        if op == "idiv":
            return z3.If(a[0] >= 0, a[0] / a[1], -((-a[0]) / a[1]))
        if op == "imod":
            return a[0] - a[1] * z3.If(a[0] >= 0, a[0] / a[1], -((-a[0]) / a[1]))
        raise GiveUp("z3 op " + op)

    def canon_mat(self, m):
        nf = self.ring.nf(m)
        if not hasattr(self, "matreps"):
            self.matreps = []
        for i, n2 in enumerate(self.matreps):
            if self.ring.same(nf, n2):
                return i
        self.matreps.append(nf)
        return len(self.matreps) - 1

    def psrep(self, e):
        n, k, body = e.args
        for i, (k2, b2, srt) in enumerate(self.psreps):
            if srt != e.sort:
                continue
            b = subst(body, {k: k2})
            if b is b2:
                return i
        for i, (k2, b2, srt) in enumerate(self.psreps):
            if srt != e.sort:
                continue
            b = subst(body, {k: k2})
            if b.sort == "R":
                try:
                    if self.poly.zero(sub(b, b2)):
                        return i
                except GiveUp:
                    pass
            elif self.entails([], eq(b, b2)):
                return i
        self.psreps.append((k, body, e.sort))
        return len(self.psreps) - 1

    # ---------------- axiom instantiation
    def instantiate(self, es):
        facts = []
        done = set()
        terms = set()
        frontier = list(es)
        for rnd in range(3):
            for e in frontier:
                subterms(e, terms)
            new = []
            byname = {}
            ps = {}
            for t in list(terms):
                if not isinstance(t, E):
                    continue
                if t.op == "app" and t.args[0] in self.axioms:
                    byname.setdefault(t.args[0], []).append(t)
                elif t.op == "psum":
                    ps.setdefault(self.psrep(t), set()).add(t.args[0])
                elif t.op == "fn" and t.args[0] == "sqrt":
                    new.append(le(R(0), t))
                    new.append(implies(le(R(0), t.args[1]), eq(mul(t, t), t.args[1])))
                elif t.op == "fn" and t.args[0] in ("sin", "cos"):
                    new.append(le(t, R(1)))
                    new.append(le(R(-1), t))
            for n, ts in byname.items():
                ts.sort(key=lambda t: t.id)
                new += self.axioms[n](ts)
            for rep, idxs in ps.items():
                k, body, srt = self.psreps[rep]
                idxs = sorted(idxs, key=lambda t: t.id)
                def S(t): return mk("psum", (t, k, body), srt)
                def g(t): return subst(body, {k: t})
                nonneg = self.nonneg(rep)
                zero = I(0) if srt == "I" else R(0)
                new.append(eq(S(I(0)), zero))
                for t in idxs:
                    if nonneg:
                        new.append(implies(le(I(0), t), le(zero, S(t))))
                    if rep in self.sumfacts:
                        new += [implies(and_(g_, le(I(0), t), le(t, u_) if u_ is not None else TRUE), eq(S(t), F_(t))) for g_, F_, u_ in self.sumfacts[rep]]
                for t1 in idxs:
                    for t2 in idxs:
                        if t1 is t2:
                            continue
                        new.append(implies(and_(le(I(0), t1), eq(t2, add(t1, I(1)))), eq(S(t2), add(S(t1), g(t1)))))
                        if nonneg:
                            new.append(implies(and_(le(I(0), t1), lt(t1, t2)), le(add(S(t1), g(t1)), S(t2))))
            for a in ps:
                for b in ps:
                    if a != b and self.dominated(a, b):
                        (ka, ba, sa), (kb, bb, sb) = self.psreps[a], self.psreps[b]
                        for t1 in ps[a]:
                            for t2 in ps[b]:
                                x, y = mk("psum", (t1, ka, ba), sa), mk("psum", (t2, kb, bb), sb)
                                new.append(implies(and_(le(I(0), t1), le(t1, t2)), le(x, y)))
                                new.append(implies(and_(le(I(0), t1), lt(t1, t2)), le(add(x, subst(bb, {kb: t1})), y)))
            new = [f for f in new if f is not TRUE and f not in done]
            if not new:
                break
            done.update(new)
            facts += new
            frontier = new
        return facts

    def sum_lemma(self, name, k, body, F, pc, upto=None):
        """sum_{i<t} body(i) = F(t) for all t >= 0 (with upto: all 0 <= t <= upto), by induction over t; available to later queries under pc"""
        t = var("t!", "I")
        ok = self.prove(name + " (induction: base)", eq(F(I(0)), I(0) if body.sort == "I" else R(0)), pc)
        ok &= self.prove(name + " (induction: step)", eq(F(add(t, I(1))), add(F(t), subst(body, {k: t}))), list(pc) + [le(I(0), t)] + ([lt(t, upto)] if upto is not None else []))
        if ok:
            rep = self.psrep(mk("psum", (t, k, body), body.sort))
            g = and_(*pc)
            self.sumfacts.setdefault(rep, []).append((g, F, upto))
            self.ent_cache.clear()
        return ok

    def dominated(self, a, b):
        """two integer sums over the same arrays with summand a <= summand b everywhere, b not negative"""
        if not hasattr(self, "_dom"):
            self._dom, self._sym = {}, {}
        for r in (a, b):
            if r not in self._sym:
                self._sym[r] = {x.args[0] for x in subterms(self.psreps[r][1]) if isinstance(x, E) and x.op == "app"}
        if (a, b) not in self._dom:
            self._dom[a, b] = False
            (ka, ba, sa), (kb, bb, sb) = self.psreps[a], self.psreps[b]
            if sa == sb == "I" and self._sym[a] & self._sym[b] and self.nonneg(b):
                k = var("td!", "I")
                self._dom[a, b] = self.entails([le(I(0), k)], le(subst(ba, {ka: k}), subst(bb, {kb: k})))
        return self._dom[a, b]

    def nonneg(self, rep):
        if not hasattr(self, "_nn"):
            self._nn = {}
        if rep not in self._nn:
            self._nn[rep] = False
            k, body, srt = self.psreps[rep]
            self._nn[rep] = self.entails([le(I(0), k)], le(I(0) if srt == "I" else R(0), body))
        return self._nn[rep]

    def check(self, assumptions, timeout=None):
        """sat / unsat / unknown of the conjunction"""
        t0 = time.time()
        self.queries += 1
        s = z3.SolverFor("ALL") if False else z3.Solver()
        s.set("timeout", timeout or self.timeout)
        es = list(assumptions) + self.global_facts
        facts = self.instantiate(es)
        try:
            for e in es + facts:
                s.add(self.z(e))
            r = str(s.check())
        except z3.Z3Exception:
            r = "unknown"
        if r == "unknown":
            self.unknowns += 1
        self.last_solver = s
        self.solver_time += time.time() - t0
        return r

    def entails(self, pc, goal):
        if goal is TRUE:
            return True
        if goal is FALSE and not pc:
            return False
        if goal in pc:
            return True
        key = (frozenset(pc), goal)
        r = self.ent_cache.get(key)
        if r is None:
            u = self.check(list(pc) + [not_(goal)])
            r = u == "unsat"
            self.ent_cache[key] = r
            if u == "unknown":
                self.unk_keys.add(key)
        elif key in self.unk_keys:
            self.unknowns += 1
        return r

    def entails_cmp(self, pc, goal):
        """entailment with every nonlinear comparison replaced by the sign of one variable per normal form (weaker facts, so sound)"""
        if not any(isinstance(t, E) and t.op == "mul" and not isc(t.args[0]) for t in subterms(goal)):
            return False
        self.cmpvars = getattr(self, "cmpvars", {})
        u0 = self.unknowns
        try:
            g = self.cmp_abs(goal)
            q = [self.cmp_abs(x) for x in pc if x.op != "forall"]
        except GiveUp:
            return False
        ok = self.entails(q, g)
        if ok:
            self.unknowns = u0
        return ok

    def cmp_abs(self, e, depth=0):
        if not isinstance(e, E) or e.sort != "B":
            return e
        if e.op in ("and", "or", "not"):
            a = [self.cmp_abs(x, depth) for x in e.args]
            return and_(*a) if e.op == "and" else or_(*a) if e.op == "or" else not_(a[0])
        if e.op == "ite":
            c, x, y = [self.cmp_abs(z, depth) for z in e.args]
            return or_(and_(c, x), and_(not_(c), y))
        if e.op == "eq" and e.args[0].sort == "B":
            x, y = [self.cmp_abs(z, depth) for z in e.args]
            return or_(and_(x, y), and_(not_(x), not_(y)))
        if e.op in ("lt", "le", "eq") and e.args[0].sort == "R":
            d = sub(e.args[0], e.args[1])
            c = first_cond(d)
            if c is not None:
                if depth > 6:
                    return e
                cc = self.cmp_abs(c, depth + 1)
                x, y = [self.cmp_abs(mk(e.op, (assume_cond(d, c, v), R(0)), "B"), depth + 1) for v in (True, False)]
                return or_(and_(cc, x), and_(not_(cc), y))
            n, den = self.poly.rat(d)
            if not den and all(sum(k for _, k in m) <= 1 for m in n):
                return e
            dk = frozenset(den.items())
            key, nkey = (frozenset(n.items()), dk), (frozenset((m, -k) for m, k in n.items()), dk)
            if nkey in self.cmpvars:
                v = neg(self.cmpvars[nkey])
            else:
                v = self.cmpvars.get(key)
                if v is None:
                    v = self.cmpvars[key] = var(f"cmp!{len(self.cmpvars)}", "R")
            return lt(v, R(0)) if e.op == "lt" else le(v, R(0)) if e.op == "le" else eq(v, R(0))
        return e

    def feasible(self, pc):
        key = (frozenset(pc), None)
        r = self.ent_cache.get(key)
        if r is None:
            u0 = self.unknowns
            r = self.check(pc, min(self.timeout, 700)) != "unsat"
            self.unknowns = u0          # an undecided path is explored: nothing is lost
            self.ent_cache[key] = r
        return r

    def quick_feasible(self, pc, c):
        """False only if pc and c are contradictory; looks at the arithmetic facts about the variables of c alone"""
        vs = leafs(c)
        fs = frozenset([p for p in pc if p.op != "forall" and leafs(p) & vs and len(leafs(p)) < 6] + [c])
        key = (fs, "q")
        r = self.ent_cache.get(key)
        if r is None:
            self.queries += 1
            t0 = time.time()
            s = z3.Solver()
            s.set("timeout", 1000)
            try:
                for e in fs:
                    s.add(self.z(e))
                r = str(s.check()) != "unsat"
            except z3.Z3Exception:
                r = True
            self.solver_time += time.time() - t0
            self.ent_cache[key] = r
        return r

    # ---------------- equality of reals under pc
    def real_eq(self, a, b, pc, depth=0):
        """True if proved.  Splits on ite conditions, then normal form, then z3."""
        d = sub(a, b)
        if isc(d):
            return cv(d) == 0
        d0 = d
        d = self.resolve(d, pc)
        if d is not d0:
            return self.real_eq(d, R(0) if d.sort == "R" else I(0), pc, depth)
        if self.deadline and time.time() > self.deadline:
            raise GiveUp("deadline")
        try:
            if self.poly.zero(d):
                return True
        except GiveUp:
            pass
        c = first_cond(d)
        if c is not None and depth < 40:
            for val in (True, False):
                cc = c if val else not_(c)
                if not self.quick_feasible(pc, cc):
                    continue
                d2 = assume_cond(d, c, val)
                if not self.real_eq(d2, R(0) if d.sort == "R" else I(0), list(pc) + [cc], depth + 1):
                    if self.feasible(list(pc) + [cc]):
                        return False
            return True
        if self.entails(list(pc), eq(a, b)):
            return True
        # equal atoms under pc: unify opaque applications whose arguments are provably equal
        u = self.unify(d, pc)
        if u is not d:
            try:
                if self.poly.zero(u):
                    return True
            except GiveUp:
                pass
        return False

    def resolve(self, d, pc):
        """entries of matrices built by a loop of block writes: find the iteration that owns the entry"""
        ts = [t for t in subterms(d) if isinstance(t, E) and t.op == "melem" and t.args[0].op == "mloop"]
        if not ts:
            return d
        m = {}
        for t in ts:
            v = self.read_loop(t, list(pc))
            if v is not None:
                m[t] = v
        return subst(d, m) if m else d

    def settle(self, e, pc, depth=0):
        """simplify under pc, resolving inner loop reads"""
        e = self.simplify(e, pc)
        if depth < 4:
            for _ in range(4):
                ts = [t for t in subterms(e) if isinstance(t, E) and t.op == "melem" and t.args[0].op == "mloop"]
                m = {}
                for t in ts:
                    v = self.read_loop(t, pc, depth + 1)
                    if v is not None:
                        m[t] = v
                if not m:
                    break
                e = self.simplify(subst(e, m), pc)
        return e

    def read_loop(self, t, pc, depth=0):
        key = (t, frozenset(pc))
        c = self.rl_cache.get(key, 0)
        if c == 0:
            if self.deadline and time.time() > self.deadline:
                raise GiveUp("deadline")
            c = self.rl_cache[key] = self._read_loop(t, pc, depth)
        return c

    def _read_loop(self, t, pc, depth):
        L, i, j = t.args
        base, k, step, head, n = L.args
        hv = elem(head, i, j)
        w = elem(step, i, j)
        rng = [le(I(0), k), lt(k, n)]
        if self.settle(w, pc + rng, depth) is hv:
            return elem(base, i, j)
        b0 = elem(base, i, j)
        if isc(b0):         # induction: every iteration keeps the constant
            w0 = self.settle(subst(w, {hv: b0}), pc + rng, depth)
            if w0 is b0:
                return b0
        hname = "M:" + head.args[0]
        def reads_head(v, but=None):
            return any(isinstance(y, E) and y.op == "app" and y.args[0] == hname and y is not but or y is head for y in subterms(v))
        first, cands = [], {i, j}
        for x in (i, j):
            for y in subterms(x):
                if isinstance(y, E) and y.op == "psum":
                    cands.add(y.args[0])
                if isinstance(y, E) and y.op == "app":
                    cands |= {z for z in y.args[1:] if isinstance(z, E) and z.sort == "I"}
                if isinstance(y, E) and y.op == "v" and y.sort == "I":
                    first.append(y)
        for y in subterms(w):
            if isinstance(y, E) and y.op in ("lt", "le", "eq") and y.args[0].sort == "I" and k in subterms(y):
                A, sl = linear_in(sub(y.args[1], y.args[0]), k)
                if sl in (1, -1):
                    A = A if sl == 1 else neg(A)
                    cands |= {A, sub(A, I(1)), add(A, I(1))}
                elif sl:
                    cands.add(idiv(A if sl > 0 else neg(A), I(abs(sl))))
        cands.add(sub(n, I(1)))
        cands |= set(getattr(self, "owners", ()))
        order = first + sorted(cands - set(first), key=lambda x: x.id)
        for c in order:
            if k in subterms(c) or c.sort != "I":
                continue
            if not self.entails(pc, and_(le(I(0), c), lt(c, n))):
                continue
            v = self.settle(subst(w, {k: c}), pc, depth)
            if reads_head(v, hv):
                continue
            later = self.settle(w, pc + rng + [lt(c, k)], depth)
            if later is not hv and not self.entails(pc + rng + [lt(c, k)], FALSE):
                continue
            if hv in subterms(v):
                if self.settle(w, pc + rng + [lt(k, c)], depth) is not hv and not self.entails(pc + rng + [lt(k, c)], FALSE):
                    continue
                v = subst(v, {hv: elem(base, i, j)})
            return v
        return None

    def simplify(self, e, pc, depth=0):
        """decide the ite conditions of e under pc and under the branches they sit in"""
        pc = list(pc)
        for _ in range(60):
            ts = outer_ites(e)
            m = {}
            for t in ts:
                r = self.simp_ite(t, pc, depth)
                if r is not t:
                    m[t] = r
            if not m:
                return e
            e2 = subst(e, m)
            if e2 is e:
                return e
            e = e2
            if all(t.op == "ite" for t in m.values()) or not outer_ites(e):
                return e
        return e

    def simp_ite(self, t, pc, depth):
        key = (t, frozenset(pc))
        r = self.si_cache.get(key)
        if r is None:
            r = self.si_cache[key] = self._simp_ite(t, pc, depth)
        return r

    def _simp_ite(self, t, pc, depth):
        if self.deadline and time.time() > self.deadline:
            raise GiveUp("deadline")
        c, a, b = t.args
        if self.entails(pc, c):
            return self.simplify(a, pc, depth)
        if self.entails(pc, not_(c)):
            return self.simplify(b, pc, depth)
        if depth > 6:
            return t
        a2 = self.simplify(a, pc + [c], depth + 1)
        b2 = self.simplify(b, pc + [not_(c)], depth + 1)
        if a2 is a and b2 is b:
            return t
        return ite(c, a2, b2)

    def unify(self, d, pc):
        apps = [t for t in subterms(d) if isinstance(t, E) and t.op in ("app", "melem") and t.sort == "R" and len(t.args) > 1]
        apps.sort(key=lambda t: t.id)
        if len(apps) > 60:
            return d
        m = {}
        for i, t in enumerate(apps):
            for u in apps[:i]:
                if u in m or u.op != t.op or u.args[0] != t.args[0] or len(u.args) != len(t.args):
                    continue
                ok = True
                for x, y in zip(t.args[1:], u.args[1:]):
                    if x is y:
                        continue
                    if x.sort == "R" or y.sort == "R":
                        try:
                            if not self.poly.zero(sub(x, y)):
                                ok = False
                        except GiveUp:
                            ok = False
                    elif not self.entails(list(pc), eq(x, y)):
                        ok = False
                    if not ok:
                        break
                if ok:
                    m[t] = u
                    break
        return subst(d, m) if m else d

    def mat_eq_quick(self, a, b):
        d = dims(a)
        if d is not None and dims(b) == d and d[0] * d[1] <= 36:
            A, Bm = dense(a), dense(b)
            if A is None or Bm is None:
                return False
            try:
                return all(self.poly.zero(sub(x, y)) for r1, r2 in zip(A, Bm) for x, y in zip(r1, r2))
            except GiveUp:
                return False
        if a.op != b.op or a.op in ("mmul", "madd"):
            pass
        i, j = var("qi", "I"), var("qj", "I")
        pc = [le(I(0), i), lt(i, a.r), le(I(0), j), lt(j, a.c)]
        x, y = elem(a, i, j), elem(b, i, j)
        if x.op == "melem" and x.args[0] is a or (y.op == "melem" and y.args[0] is b):
            return False
        try:
            return self.real_eq(x, y, pc)
        except GiveUp:
            return False

    def mat_eq(self, a, b, pc, split=()):
        """list of failing cases (empty = proved).  split: constants/terms to split index ranges at."""
        fails = []
        if a is b:
            return fails
        for (x, y, what) in ((a.r, b.r, "rows"), (a.c, b.c, "cols")):
            if not self.entails(list(pc), eq(x, y)):
                return [(what, eq(x, y), list(pc))]
        try:
            if self.ring.equal(a, b):
                return fails
        except (GiveUp, RecursionError):
            pass
        def ranges(n):
            p = pyint(n)
            if p is not None and p <= 20:
                return [(I(i), []) for i in range(p)]
            return None
        out = []
        def idx(n, tag):
            r = ranges(n)
            if r is not None:
                return r
            cases = []
            k = var(tag, "I")
            base = [le(I(0), k), lt(k, n)]
            lo = []
            for s in split:
                ps = pyint(lift(s))
                if ps is not None and ps <= 20:
                    for t in range(len(cases), ps):
                        cases.append((I(t), []))
                    lo = [le(I(ps), k)]
            cases.append((k, base + lo))
            return cases
        ri, ci = idx(a.r, "ri"), idx(a.c, "ci")
        for (i, p1) in ri:
            for (j, p2) in ci:
                q = list(pc) + p1 + p2
                if (p1 or p2) and not self.feasible(q):
                    continue
                x, y = elem(a, i, j), elem(b, i, j)
                if not self.real_eq(x, y, q):
                    fails.append((f"({show(i)},{show(j)})", eq(x, y), q))
                    if len(fails) > 3:
                        return fails
        return fails

    # ---------------- obligations
    def record(self, name, ok, backend, t0, detail="", pc=None, goal=None):
        o = Ob(name, self.current_fn, "proved" if ok else "failed", backend, time.time() - t0, detail)
        o.timeout = (not ok) and (self.unknowns > self.unk0 or detail.startswith("gave up"))
        if not ok and goal is not None:
            try:
                o.witness = self.refute(pc or [], goal)
            except Exception as ex:     # noqa: refutation is best effort
                o.witness = None
                o.detail += f" [refute: {ex}]"
        self.obs.append(o)
        return ok

    def prove(self, name, goal, pc):
        t0 = time.time()
        self.unk0 = self.unknowns
        try:
            if goal.op == "eq" and goal.args[0].sort == "R":
                ok = self.real_eq(goal.args[0], goal.args[1], pc)
                return self.record(name, ok, "normal-form/z3", t0, "" if ok else show(goal)[:int(os.environ.get("VERIF_SHOW", "600"))], pc, goal)
            ok = self.entails_cmp(list(pc), goal) or self.entails(list(pc), goal)
            return self.record(name, ok, "z3", t0, "" if ok else show(goal)[:int(os.environ.get("VERIF_SHOW", "600"))], pc, goal)
        except GiveUp as g:
            return self.record(name, False, "z3", t0, f"gave up: {g}")

    def prove_mat(self, name, a, b, pc, split=()):
        t0 = time.time()
        self.unk0 = self.unknowns
        try:
            f = self.mat_eq(a, b, pc, split)
        except GiveUp as g:
            return self.record(name, False, "ring/normal-form/z3", t0, f"gave up: {g}")
        if not f:
            return self.record(name, True, "ring/normal-form/z3", t0)
        where, goal, q = f[0]
        return self.record(name, False, "ring/normal-form/z3", t0, f"at {where}: {show(goal)[:int(os.environ.get("VERIF_SHOW", "600"))]}", q, goal)

    # ---------------- numeric refutation
    def refute(self, pc, goal, tries=400):
        """search a concrete assignment satisfying pc and the axioms but not the goal"""
        st = set()
        for e in list(pc) + [goal]:
            subterms(e, st)
        if any(isinstance(t, E) and t.op in ("v", "app") and ("havoc" in str(t.args[0]) or "uninit" in str(t.args[0])) for t in st):
            return None
        if any(isinstance(t, Mx) and t.op == "mv" and ("havoc" in t.args[0] or "uninit" in t.args[0]) for t in st):
            return None
        allpc = list(pc) + self.global_facts
        r = self.check(allpc + [not_(goal)])
        model = {}
        if r == "sat":
            m = self.last_solver.model()
            for t in st:
                if isinstance(t, E) and t.op == "v" and t.sort in ("I", "B"):
                    v = m.eval(self.z(t), model_completion=True)
                    model[t] = v.as_long() if t.sort == "I" else z3.is_true(v)
        elif r == "unsat":
            return None
        facts = self.instantiate(allpc + [goal])
        t_end = time.time() + 4
        for i in range(tries):
            if time.time() > t_end:
                return None
            base = dict(model) if i % 2 == 0 else {}
            env = Env(seed=i, base=base, hooks=self.hooks)
            env.t_end = t_end
            for q in getattr(self, "unitq", []):
                cs = (q.w, q.x, q.y, q.z)
                if all(c.op == "v" for c in cs):
                    vs = [env.rng.gauss(0, 1) for _ in cs]
                    nn = sum(x * x for x in vs) ** 0.5
                    for c, x in zip(cs, vs):
                        env.base[c] = x / nn
            try:
                if not all(env.ev(p) for p in allpc):
                    continue
                if not all(env.ev(p) for p in facts if not _approx(p)):
                    continue
                if goal.op == "eq" and goal.args[0].sort == "R":
                    x, y = env.ev(goal.args[0]), env.ev(goal.args[1])
                    if abs(x - y) > 1e-6 * (1 + abs(x) + abs(y)):
                        return {"values": {show(k): v for k, v in env.base.items() if isinstance(k, E)}, "lhs": x, "rhs": y}
                elif not env.ev(goal):
                    return {"values": {show(k): v for k, v in env.base.items() if isinstance(k, E)}}
            except NumErr:
                continue
        return None


_leafs = {}


def leafs(e):
    """atoms of e: variables and opaque terms"""
    r = _leafs.get(e)
    if r is None:
        if e.op == "c":
            r = frozenset()
        elif e.op in ("add", "mul", "le", "lt", "eq", "and", "or", "not", "ite", "implies", "neg"):
            r = frozenset().union(*[leafs(x) for x in e.args if isinstance(x, E)])
        else:
            r = frozenset([e])
        _leafs[e] = r
    return r


def linear_in(d, k):
    """d = A - s*k with constant s: (A, s), else (None, None)"""
    z, o = subst(d, {k: I(0)}), subst(d, {k: I(1)})
    s = sub(z, o)
    if not isc(s) or sub(d, add(z, mul(neg(s), k))) is not I(0):
        return None, None
    return z, cv(s)


def _approx(p):
    return any(isinstance(t, E) and t.op == "fn" for t in subterms(p))


def first_cond(e):
    """an ite condition with no ite inside, found in e (not inside opaque application arguments unless needed)"""
    seen = set()
    st = [e]
    best = None
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, E):
            continue
        seen.add(x)
        if x.op == "ite":
            c = x.args[0]
            inner = first_cond(c) if has_ite(c) else None
            return inner if inner is not None else c
        if x.op == "psum":
            continue
        for y in x.args:
            if isinstance(y, E):
                st.append(y)
    return best


def outer_ites(e):
    """the ite terms of e that are not inside another ite or a sum"""
    out, seen, st = [], set(), [e]
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, E):
            continue
        seen.add(x)
        if x.op == "ite":
            out.append(x)
            continue
        if x.op in ("psum", "forall"):
            continue
        for y in x.args:
            if isinstance(y, E):
                st.append(y)
    return out


def first_cond_undec(e, pc, P):
    """an ite condition of e that pc decides: (condition, value)"""
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, E):
            continue
        seen.add(x)
        if x.op == "ite" and not has_ite(x.args[0]):
            c = x.args[0]
            if P.entails(list(pc), c):
                return c, True
            if P.entails(list(pc), not_(c)):
                return c, False
        if x.op in ("psum", "forall"):
            continue
        for y in x.args:
            if isinstance(y, E):
                st.append(y)
    return None


def has_ite(e):
    """an ite outside the bodies of sums"""
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x in seen or not isinstance(x, E):
            continue
        seen.add(x)
        if x.op == "ite":
            return True
        if x.op == "psum":
            st.append(x.args[0])
            continue
        st.extend(y for y in x.args if isinstance(y, E))
    return False


def assume_cond(e, c, val, memo=None):
    m = {c: B(val)}
    if c.op == "and" and val:
        for x in c.args:
            m[x] = TRUE
            m[not_(x)] = FALSE
    m[not_(c)] = B(not val)
    return subst(e, m)
