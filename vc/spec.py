"""Checking one function against its contract."""
import os
import pickle
import time
from terms import *
from prove import Prover, GiveUp
from interp import *
import interp as _interp


class Result:
    def __init__(self):
        self.functions = {}      # fn -> dict(paths, obligations, inlined, contracts, status, reason)
        self.obs = []
        self.undecided = []      # (fn, reason)
        self.libcalls = set()
        self.loops = []


class Ctx:
    def __init__(self, prog, timeout=4000):
        self.prog = prog
        self.timeout = timeout
        self.res = Result()
        self.only = None
        self.solver_time = 0.0
        self.queries = 0
        self.t_limit = 120
        self.jobs = 0            # > 0: every check runs in a forked child, that many at a time
        self._kids = []          # [pid, fd, label, data or None]

    def _fork(self, lab, work):
        while sum(k[3] is None for k in self._kids) >= self.jobs:
            import select
            live = [k for k in self._kids if k[3] is None]
            ready = select.select([k[1] for k in live], [], [])[0]
            for k in live:
                if k[1] in ready:
                    self._reap(k)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                self.res = Result()
                self.solver_time, self.queries, self._kids, self.jobs = 0.0, 0, [], 0
                try:
                    work()
                except BaseException as ex:      # noqa: reported to the parent
                    self.res.undecided.append((lab, f"{type(ex).__name__}: {ex}"))
                R_ = self.res
                for o in R_.obs:
                    o.witness = {str(a): str(b) for a, b in o.witness.items()} if isinstance(o.witness, dict) else (str(o.witness) if o.witness else None)
                data = pickle.dumps((R_.functions, R_.obs, R_.undecided, sorted(R_.libcalls), R_.loops, self.solver_time, self.queries))
                while data:
                    data = data[os.write(w, data[:65536]):]
            finally:
                os._exit(0)
        os.close(w)
        self._kids.append([pid, r, lab, None])

    def _reap(self, k):
        out = []
        while True:
            b = os.read(k[1], 1 << 20)
            if not b:
                break
            out.append(b)
        os.close(k[1])
        os.waitpid(k[0], 0)
        k[3] = b"".join(out) or b"-"

    def join(self):
        for k in self._kids:
            if k[3] is None:
                self._reap(k)
            try:
                fns, obs, und, libc, loops, st, q = pickle.loads(k[3])
            except Exception:
                self.res.undecided.append((k[2], "the prover process ended without a result"))
                continue
            self.res.functions.update(fns)
            self.res.obs += obs
            self.res.undecided += und
            self.res.libcalls |= set(libc)
            self.res.loops += loops
            self.solver_time += st
            self.queries += q
        self._kids = []

    def fn(self, name, nparams=None, pred=None):
        f = self.prog.find(name, nparams, pred)
        return f

    def check(self, name, setup, post, nparams=None, pred=None, contracts=None, label=None, side=True, split=(), t_limit=None, f=None, maxpaths=None, lemmas=None, loops=None):
        """setup(I) -> (this LV or None, [args]); post(I, Pth) states obligations through Pth.prove/prove_mat"""
        f = f or self.fn(name, nparams, pred)
        lab = label or name
        if self.only and not any(o in lab for o in self.only):
            return
        if self.jobs:
            return self._fork(lab, lambda: self._check(lab, name, setup, post, contracts, side, t_limit, f, maxpaths, lemmas, loops))
        return self._check(lab, name, setup, post, contracts, side, t_limit, f, maxpaths, lemmas, loops)

    def _check(self, lab, name, setup, post, contracts, side, t_limit, f, maxpaths, lemmas, loops=None):
        info = {"paths": 0, "obligations": 0, "status": "proved", "inlined": [], "contracts": []}
        self.res.functions[lab] = info
        if f is None:
            info["status"] = "missing"
            self.res.undecided.append((lab, "function not found in the current source"))
            return
        P = Prover(self.timeout)
        P.current_fn = lab
        I_ = Interp(self.prog, P, contracts or {})
        I_.loop_invs = loops or {}
        if maxpaths:
            I_.maxpaths = maxpaths
        t0 = time.time()
        I_.deadline = P.deadline = t0 + (t_limit or self.t_limit)
        _interp.UNIT.clear()
        _interp.OPQROT.clear()
        try:
            this, args = setup(I_)
            pre_ok = P.feasible(I_.pc)
            o = P.record("precondition is satisfiable", bool(pre_ok and P.check(I_.pc) != "unsat"), "z3", time.time())
            snap = I_.snap()
            if "inits" in f and this is None:       # a constructor: the object is what it builds
                this = I_.alloc(Obj(f["cls"], {}))
                loc = this
                def run():
                    I_.store[loc.loc] = Obj(f["cls"], {})
                    I_.run_ctor(f, loc, args)
                paths = I_.explore(run)
            else:
                paths = I_.explore(lambda: I_.inline(f, this, args))
            I_.restore(snap)
            live = 0
            seen = set()
            for (kind, val, st, newpc) in paths:
                if kind == "abort":
                    continue
                live += 1
                I_.restore(st)
                pth = Pth(I_, P, val, this, args, lab)
                if lemmas:
                    lemmas(I_, pth)
                if side:
                    for (what, g, pc) in st[3]:
                        if (what, g) in seen:
                            continue
                        seen.add((what, g))
                        P.prove(what, g, pc)
                post(I_, pth)
            info["paths"] = live
            if live == 0:
                raise Unsupported("no path reaches the end")
        except (Unsupported, GiveUp, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AbortPath, AssertionError) as ex:
            info["status"] = "undecided"
            info["reason"] = f"{type(ex).__name__}: {ex}"
            self.res.undecided.append((lab, info["reason"]))
            if self.only or os.environ.get("VERIF_DEBUG"):
                import traceback
                traceback.print_exc()
        info["obligations"] = len(P.obs)
        info["discharged"] = sum(o.status == "proved" for o in P.obs)
        info["inlined"] = sorted(I_.inlined)
        info["contracts"] = sorted(I_.used_contracts)
        info["time"] = round(time.time() - t0, 2)
        if any(o.status != "proved" for o in P.obs) and info["status"] == "proved":
            info["status"] = "failed"
        self.res.obs += P.obs
        self.res.libcalls |= I_.libcalls
        self.solver_time += P.solver_time
        self.queries += P.queries
        return I_, P


class Pth:
    """one path at the exit of the function"""

    def __init__(self, I_, P, ret, this, args, lab):
        self.I, self.P, self.ret, self.this, self.args, self.lab = I_, P, ret, this, args, lab
        if isinstance(ret, LV):
            self.retv = I_.load(ret)
        else:
            self.retv = ret

    @property
    def pc(self): return self.I.pc

    def load(self, lv, *fields):
        v = self.I.load(lv)
        for f in fields:
            v = v.f[f]
        return v

    def prove(self, name, goal, extra=()):
        return self.P.prove(name, goal, list(self.I.pc) + list(extra))

    def prove_eq(self, name, a, b, extra=()):
        """structural equality of values"""
        ok = True
        for (path, x, y) in veq_terms(a, b):
            if isinstance(x, Mx):
                ok &= self.P.prove_mat(name + path, x, y, list(self.I.pc) + list(extra))
            else:
                ok &= self.prove(name + path, eq(x, y), extra)
        if not veq_terms(a, b):
            self.P.record(name, True, "identity", time.time())
        return ok

    def prove_mat(self, name, a, b, extra=(), split=()):
        return self.P.prove_mat(name, a, b, list(self.I.pc) + list(extra), split)


def mat(I_, name, r=None, c=None, tag=""):
    r = var(name + ".rows", "I") if r is None else lift(r)
    c = var(name + ".cols", "I") if c is None else lift(c)
    for x in (r, c):
        if x.op == "v":
            I_.assume(le(I(0), x))
    return mvar(name + tag, r, c)


def load_program(only=None):
    import extract
    return Program(extract.extract(only))
