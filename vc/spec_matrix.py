"""Contracts of the matrix helpers: insertion, removal, cloning, marginalisation, projection, compression, triangularisation."""
from common import *
from spec import *
import loops
from fractions import Fraction as Fr

bi, bj = var("bi", "I"), var("bj", "I")


def fmat(r, c, body): return mmk("mfn", (bi, bj, body), r, c)


def inserted(S, M, r, c):
    """M with S inserted at (r, c): old entries keep their order, new cross entries are zero"""
    inr, inc = and_(le(r, bi), lt(bi, add(r, S.r))), and_(le(c, bj), lt(bj, add(c, S.c)))
    ii, jj = ite(lt(bi, r), bi, sub(bi, S.r)), ite(lt(bj, c), bj, sub(bj, S.c))
    return fmat(add(M.r, S.r), add(M.c, S.c), ite(and_(inr, inc), elem(S, sub(bi, r), sub(bj, c)), ite(or_(inr, inc), R(0), elem(M, ii, jj))))


def removed(M, r, c, n):
    ii, jj = ite(lt(bi, r), bi, add(bi, n)), ite(lt(bj, c), bj, add(bj, n))
    return fmat(sub(M.r, n), sub(M.c, n), elem(M, ii, jj))


def c_insert(I_, this, args, f):
    S, M, r, c = [lib.val(I_, a) for a in args]
    I_.side.append(("insertion index within the matrix", and_(le(I(0), r), le(r, M.r), le(I(0), c), le(c, M.c)), list(I_.pc)))
    out = inserted(S, M, r, c)
    I_.events.append(("insert", S, M, r, c, out))
    return out


def c_remove(I_, this, args, f):
    M, r, c, n = [lib.val(I_, a) for a in args]
    I_.side.append(("removed range within the matrix", and_(le(I(0), r), le(add(r, n), M.r), le(I(0), c), le(add(c, n), M.c), le(I(0), n)), list(I_.pc)))
    out = removed(M, r, c, n)
    I_.events.append(("remove", M, r, c, n, out))
    return out


def c_qr(I_, this, args, f):
    """QR_r: an upper triangular R with R'R = left'left + right'right"""
    A, B_ = [lib.val(I_, a) for a in args]
    I_.side.append(("triangularised matrices have equally many columns", eq(A.c, B_.c), list(I_.pc)))
    I_.side.append(("triangularised matrix has at least as many rows as columns", le(A.c, add(A.r, B_.r)), list(I_.pc)))
    return mmk("mqr", (A, B_), A.c, A.c)


def P05(ctx):
    def s_ins(I_):
        S, M = mat(I_, "sub"), mat(I_, "in")
        r, c = I_.sym("unsigned int", "row"), I_.sym("unsigned int", "col")
        I_.assume(le(r, M.r)); I_.assume(le(c, M.c))
        s_ins.v = (S, M, r, c)
        return None, [I_.alloc(S), I_.alloc(M), r, c]
    ctx.check("InsertInMatrix", s_ins, lambda I_, p: p.prove_mat("every old entry keeps its value and order, the block sits at the given place, new cross entries are zero", p.retv, inserted(*s_ins.v)))
    def s_rem(I_):
        M = mat(I_, "in")
        r, c, n = [I_.sym("unsigned int", x) for x in ("row", "col", "size")]
        I_.assume(le(add(r, n), M.r)); I_.assume(le(add(c, n), M.c))
        s_rem.v = (M, r, c, n)
        return None, [I_.alloc(M), r, c, n]
    ctx.check("RemoveFromMatrix", s_rem, lambda I_, p: p.prove_mat("exactly the given rows and columns are removed", p.retv, removed(*s_rem.v)))
    def s_mb(I_):
        v = mat(I_, "v", None, 1)
        b = I_.sym("double", "b")
        lv = I_.alloc(v)
        s_mb.v = (v, b, lv)
        return None, [lv, b]
    def p_mb(I_, p):
        v, b, lv = s_mb.v
        e = elem(v, bi, bj)
        p.prove_mat("entries below the bound are raised to it, others unchanged", p.load(lv), fmat(v.r, v.c, ite(lt(e, b), b, e)))
    ctx.check("MinBoundVector", s_mb, p_mb)


def clone_src(i, idx):
    """the entry of the old state that entry i of the new state copies (clone of position 0..2 and orientation 9..11 at idx)"""
    return ite(lt(i, idx), i, ite(lt(i, add(idx, I(3))), sub(i, idx), ite(lt(i, add(idx, I(6))), add(sub(i, idx), I(6)), sub(i, I(6)))))


def cloned(P, idx, root):
    n = add(P.r, I(6))
    if root:
        return fmat(n, n, ite(lt(bi, P.r), elem(P, bi, clone_src(bj, idx)), R(0)))
    return fmat(n, n, elem(P, clone_src(bi, idx), clone_src(bj, idx)))


def c_augment(I_, this, args, f):
    """contract of AugmentCovariance"""
    P, idx = [lib.val(I_, a) for a in args]
    root = I_.load(this).f["m_use_root_covariance"]
    I_.side.append(("clone goes after the body state and inside the matrix", and_(le(I(18), idx), le(idx, P.c), eq(P.r, P.c)), list(I_.pc)))
    n = add(P.c, I(6))
    out = mmk("mfn", (bi, bj, app("augcov", (bi, bj), "R")), n, n) if False else mvar(f"augcov{len(I_.events)}", n, n)
    I_.events.append(("augment", P, idx, out))
    return out


def kept(I_, C, at, ln):
    """a covariance in the same form as C that represents C's covariance without the states [at, at + ln)"""
    tab = I_.P.__dict__.setdefault("kept", {})
    if (C, at, ln) not in tab:
        n = sub(C.c, ln)
        m = tab[C, at, ln] = mvar(f"keptcov{len(tab)}", n, n)
        I_.P.__dict__.setdefault("kept_of", {})[m] = (C, at, ln)
    return tab[C, at, ln]


def c_marginalize(I_, this, args, f):
    """contract of MarginalizeCovariance"""
    P, idx, sz = [lib.val(I_, a) for a in args]
    I_.side.append(("removed state lies within the covariance", and_(le(I(0), idx), le(I(0), sz), le(add(idx, sz), P.c), eq(P.r, P.c)), list(I_.pc)))
    rev = I_.P.__dict__.setdefault("kept_of", {})
    C, at, ln = rev.get(P, (P, add(idx, sz), I(0)))
    if C is not P and not I_.P.entails(list(I_.pc), eq(add(idx, sz), at)):
        C, ln = P, I(0)
    out = kept(I_, C, idx, add(ln, sz))
    I_.events.append(("marginalize", P, idx, sz, out))
    return out


def P06(ctx):
    for root in (False, True):
        def setup(I_, root=root):
            n, idx = I_.sym("unsigned int", "n"), I_.sym("unsigned int", "index")
            I_.assume(le(I(18), idx)); I_.assume(le(idx, n))
            P = mvar("P~upper" if root else "P", n, n)
            if root:
                upper_axiom(I_, P)
            e = I_.sym("EKF", "ekf")
            e = e.set("m_use_root_covariance", B(root))
            setup.v = (P, idx)
            return I_.alloc(e), [I_.alloc(P), idx]
        def post(I_, p, root=root):
            P, idx = setup.v
            p.prove_mat("covariance root columns are [R J'; 0], so that the new covariance is J P J'" if root else "new covariance is J P J' for the map J that clones position and orientation", p.retv, cloned(P, idx, root))
        ctx.check("EKF::AugmentCovariance", setup, post, label="EKF::AugmentCovariance " + ("(root form)" if root else "(covariance form)"))


def upper_axiom(I_, M):
    """M is upper triangular"""
    nm = "M:" + M.args[0]
    I_.P.axioms[nm] = lambda ts: [implies(lt(t.args[2], t.args[1]), eq(t, R(0))) for t in ts]


def P07m(ctx):
    for root in (False, True):
        def setup(I_, root=root):
            n, idx, sz = [I_.sym("unsigned int", x) for x in ("n", "index", "size")]
            I_.assume(le(add(idx, sz), n))
            P = mvar("P", n, n)
            e = I_.sym("EKF", "ekf").set("m_use_root_covariance", B(root))
            setup.v = (P, idx, sz)
            return I_.alloc(e), [I_.alloc(P), idx, sz]
        def post(I_, p, root=root):
            P, idx, sz = setup.v
            if not root:
                p.prove_mat("exactly the rows and columns of the removed state disappear", p.retv, removed(P, idx, idx, sz))
                return
            r = p.retv
            n2 = sub(P.r, sz)
            p.prove("square of the reduced size", and_(eq(r.r, n2), eq(r.c, n2)))
            cols = fmat(P.r, n2, elem(P, bi, ite(lt(bj, idx), bj, add(bj, sz))))
            def gram(m): return mmul(mtr(m), m)
            if r.op == "mqr":
                A, B_ = r.args
                p.prove_mat("upper part of the triangularised matrix", A, mblk(cols, I(0), I(0), A.r, n2))
                p.prove_mat("lower part of the triangularised matrix", B_, mblk(cols, A.r, I(0), B_.r, n2))
            else:
                p.prove_mat("R'R equals the kept columns' Gram matrix", gram(r), gram(cols))
        ctx.check("EKF::MarginalizeCovariance", setup, post, contracts={"QR_r": c_qr, "RemoveFromMatrix": c_remove},
                  label="EKF::MarginalizeCovariance " + ("(root form)" if root else "(covariance form)"))


def has_loop(s):
    if isinstance(s, dict):
        return s.get("k") in ("for", "while", "do", "rfor") or any(has_loop(x) for x in s.values())
    return isinstance(s, list) and any(has_loop(x) for x in s)


class Givens(loops.LoopInv):
    """Invariants of measurement compression for arbitrary fixed columns a and b: J'J(a, b), J'r(a) and r'r are those
    at the start, and the columns that are done are zero below the diagonal.  kind: outer (column j), inner (row i of
    column j), rows (counting the rows to keep)."""

    def __init__(self, kind, v):
        self.kind, self.v = kind, v

    def fits(self, I_, s, writes):
        big = {w.loc for w in writes}
        J, r = self.v()["J"].loc, self.v()["r"].loc
        if self.kind == "rows":
            if J in big or r in big or has_loop(s["b"]):
                return False
        elif has_loop(s["b"]) != (self.kind == "outer") or J not in big:
            return False
        rest = [x for x in big - {J, r} if isinstance(I_.store[x], E) and I_.store[x].sort == "I"]
        if len(rest) != 1 or any(not isinstance(I_.store[x], (E, Obj)) for x in big - {J, r}):
            return False
        if self.kind == "outer" and (self.cnt is None or self.cnt.loc != rest[0]):
            return False
        self.cnt = LV(rest[0])
        self.other = [LV(x) for x in big - {J, r, rest[0]}]
        return all(isinstance(I_.load(x), Obj) and I_.load(x).cls == "JacobiRotation" for x in self.other)

    def begin(self, I_, s):
        self.now = I_.load(self.cnt)
        v = self.v()
        self.J, self.r = mvar("J@" + self.kind, v["m"], v["n"]), mvar("r@" + self.kind, v["m"], I(1))
        self.c = var("c@" + self.kind, "I")
        if self.kind == "inner":
            if self.v()["outer"].cnt is None:
                raise Unsupported("no column counter")
            self.jc = I_.load(self.v()["outer"].cnt)

    def sums(self, J, r):
        t, v = var("t!c", "I"), self.v()
        a, b = v["a"], v["b"]
        def S(x): return mk("psum", (v["m"], t, x), "R")
        for nm, x in (("J'J", mul(elem(J, t, a), elem(J, t, b))), ("J'r", mul(elem(J, t, a), elem(r, t, I(0)))), ("r'r", mul(elem(r, t, I(0)), elem(r, t, I(0))))):
            yield nm, S(x), t, x

    def zeros(self, J, col, upto, q):
        """column col is zero below row upto"""
        return implies(and_(lt(upto, q), lt(q, self.v()["m"])), eq(elem(J, q, col), R(0)))

    def shape(self, J, c, q):
        """the quantified part (over row q)"""
        v = self.v()
        if self.kind == "rows":
            return [("rows from the count on are negligible", implies(and_(le(c, q), lt(q, v["m"])), le(lib.abs_(elem(v["Jf"](), q, v["a"])), R(Fr(1, 10**9)))))]
        j = c if self.kind == "outer" else self.jc
        out = [(f"done column {nm} is zero below the diagonal", implies(lt(x, j), self.zeros(J, x, x, q))) for nm, x in (("a", v["a"]), ("b", v["b"]))]
        x = var("x!c", "I")
        out.append(("every done column is zero below the diagonal", implies(and_(le(I(0), x), lt(x, j)), self.zeros(J, x, x, q))))
        if self.kind == "inner":
            out.append(("the column in work is zero below the row in work", self.zeros(J, j, c, q)))
        return out

    def bounds(self, c):
        v = self.v()
        if self.kind == "outer":
            return and_(le(I(0), c), le(c, v["n"]))
        if self.kind == "inner":
            return and_(le(self.jc, c), lt(c, v["m"]))
        return and_(le(I(0), c), le(c, v["m"]))

    def havoc(self, I_):
        v = self.v()
        q = var("q!c", "I")
        I_.store[self.cnt.loc] = self.c
        I_.assume(self.bounds(self.c))
        if self.kind == "rows":
            for nm, g in self.shape(None, self.c, q):
                I_.assume(loops.forall_(q, g))
            return
        I_.store[v["J"].loc], I_.store[v["r"].loc] = self.J, self.r
        for x in self.other:
            I_.store[x.loc] = Obj("JacobiRotation", {"c": var("gc@" + self.kind, "R"), "s": var("gs@" + self.kind, "R")})
        for (nm, s, t, x), (_, s0, _, _) in zip(self.sums(self.J, self.r), self.sums(v["J0"], v["r0"])):
            I_.assume(eq(s, s0))
        for nm, g in self.shape(self.J, self.c, q):
            g = loops.forall_(q, g)
            I_.assume(loops.forall_(var("x!c", "I"), g) if nm.startswith("every") else g)

    def covers(self, I_, w): return w.loc in [self.v()["J"].loc, self.v()["r"].loc, self.cnt.loc] + [x.loc for x in self.other]

    def written(self, I_): return [self.cnt] + ([] if self.kind == "rows" else [LV(self.v()["J"].loc), LV(self.v()["r"].loc)] + self.other)

    def state(self, I_, c, entry):
        v = self.v()
        J, r = I_.load(v["J"]), I_.load(v["r"])
        q = var("q!r", "I")
        yield "range", self.bounds(c), ()
        if self.kind == "rows":
            for nm, g in self.shape(None, c, q):
                yield nm, g, ()
            return
        yield "sizes", and_(eq(J.r, v["m"]), eq(J.c, v["n"]), eq(r.r, v["m"]), eq(r.c, I(1))), ()
        for nm, g in self.shape(J, c, q):
            yield nm, g, ()
        for (nm, s, t, x), (_, s0, _, _), (_, s1, _, x1) in zip(self.sums(J, r), self.sums(v["J0"], v["r0"]), self.sums(self.J if not entry else J, self.r if not entry else r)):
            if entry or s is s1 or self.kind == "outer":
                yield nm, eq(s, s0), ()
                continue
            # the sum changes in two rows only
            p0, p1 = sub(self.c, I(1)), self.c
            def g(z): return sub(subst(x, {t: z}), subst(x1, {t: z}))
            def F(z): return add(mk("psum", (z, t, x1), "R"), add(ite(lt(p0, z), g(p0), R(0)), ite(lt(p1, z), g(p1), R(0))))
            ok = I_.P.sum_lemma(f"{nm}: only two rows change", t, x, F, list(I_.pc))
            yield nm, eq(F(v["m"]), s0) if ok else eq(s, s0), (), lambda f: not (f.op == "forall" and f.args[1].op == "forall")

    def entry(self, I_):
        yield from self.state(I_, I_.load(self.cnt), True)

    def step(self, I_):
        c = I_.load(self.cnt)
        yield "the counter moves by one", eq(c, add(self.c, I(1)) if self.kind == "outer" else sub(self.c, I(1))), ()
        yield from self.state(I_, c, False)

    def pre(self, I_, s):
        if self.kind != "outer":
            self.cnt = None
        elif has_loop(s["b"]) and (s.get("i") or {}).get("k") == "decl":
            self.cnt = I_.frames[-1].vars.get(s["i"]["v"][0]["id"])


def P11(ctx):
    def s_qr(I_):
        n = I_.sym("unsigned int", "n")
        A, B_ = mat(I_, "left", None, n), mat(I_, "right", None, n)
        I_.assume(le(n, add(A.r, B_.r)))
        s_qr.v = (A, B_, n)
        return None, [I_.alloc(A), I_.alloc(B_)]
    def p_qr(I_, p):
        A, B_, n = s_qr.v
        def gram(m): return mmul(mtr(m), m)
        p.prove("square of the number of columns", and_(eq(p.retv.r, n), eq(p.retv.c, n)))
        p.prove_mat("R'R = left'left + right'right", gram(p.retv), madd(gram(A), gram(B_)))
        i, j = var("ui", "I"), var("uj", "I")
        p.P.record("the result is the upper triangular factor", p.retv.op == "mqr", "structure", time.time())
    ctx.check("QR_r", s_qr, p_qr)
    def s_ln(I_):
        m, k, n = [I_.sym("unsigned int", x) for x in ("m", "k", "n")]
        I_.assume(lt(k, m))
        Hf, Hx, res = mvar("Hf", m, k), mvar("Hx", m, n), mvar("res", m, I(1))
        a, b = I_.alloc(Hx), I_.alloc(res)
        s_ln.v = (Hf, Hx, res, a, b, m, k)
        return None, [I_.alloc(Hf), a, b]
    def p_ln(I_, p):
        Hf, Hx, res, a, b, m, k = s_ln.v
        Q = mmk("mqrq", (Hf,), m, m)
        N = mtr(mblk(Q, I(0), k, m, sub(m, k)))
        p.prove_mat("Jacobian is projected onto the orthogonal complement of the columns of the feature Jacobian", p.load(a), mmul(N, Hx))
        p.prove_mat("residual is projected with the same basis", p.load(b), mmul(N, res))
    ctx.check("ApplyLeftNullspace", s_ln, p_ln)
    def s_cm(I_, fat=False):
        m, n = I_.sym("unsigned int", "m"), I_.sym("unsigned int", "n")
        a, b = I_.sym("unsigned int", "a"), I_.sym("unsigned int", "b")
        I_.assume(lt(a, n)); I_.assume(lt(b, n))
        J0, r0 = mvar("J0", m, n), mvar("r0", m, I(1))
        J, r = I_.alloc(J0), I_.alloc(r0)
        V.update(m=m, n=n, a=a, b=b, J0=J0, r0=r0, J=J, r=r, Jf=lambda: I_.load(J))
        return None, [J, r]
    V = {}
    outer, inner, rows = [Givens(k, lambda: V) for k in ("outer", "inner", "rows")]
    V["outer"] = outer
    def p_cm(I_, p):
        J, r = p.load(V["J"]), p.load(V["r"])
        m, n, a, b = V["m"], V["n"], V["a"], V["b"]
        if J is V["J0"]:
            p.prove("only a Jacobian with fewer rows than columns is left alone", lt(m, n))
            p.prove("its residual is left alone too", B(r is V["r0"]))
            return
        p.prove("columns are kept, residual and Jacobian have the same rows", and_(eq(J.c, n), eq(r.r, J.r), eq(r.c, I(1))))
        p.prove("no more rows than columns remain", le(J.r, n))
        t = var("t!c", "I")
        full, fr = J.args[0] if J.op == "mblk" else J, r.args[0] if r.op == "mblk" else r
        q = var("q!r", "I")
        p.prove("every dropped row is negligible", implies(and_(le(J.r, q), lt(q, m)), le(lib.abs_(elem(full, q, a)), R(Fr(1, 10**9)))))
        def S(n_, x): return mk("psum", (n_, t, x), "R")
        for nm, f in (("J'J", lambda J, r: mul(elem(J, t, a), elem(J, t, b))), ("J'r", lambda J, r: mul(elem(J, t, a), elem(r, t, I(0)))), ("r'r", lambda J, r: mul(elem(r, t, I(0)), elem(r, t, I(0))))):
            p.prove(f"{nm} is kept by the rotations", eq(S(m, f(full, fr)), S(m, f(V["J0"], V["r0"]))))
            p.prove(f"{nm} of the result is that of the rows kept", eq(S(J.r, f(J, r)), S(J.r, f(full, fr))))
        p.prove("the compressed Jacobian is upper triangular", implies(and_(lt(a, q), lt(q, J.r)), eq(elem(J, q, a), R(0))))
    ctx.check("CompressMeasurements", s_cm, p_cm, loops={"CompressMeasurements": [outer, inner, rows]})
