"""Loops.  Bounded by a constant: unrolled (complete).  Otherwise one arbitrary iteration k is executed
symbolically and an inductive invariant is read off it: every location the iteration writes must have one of the
closed forms below, each of which is inductive by construction (base: value before the loop; step: the executed
iteration).  Anything else is Unsupported (the caller then has no proof, never a wrong one).

  scalar      x' = x + g(k)             ->  x0 + sum_{t<k} g(t)
              x' = e(k)                 ->  last value
              x' = c(k) ? e(k) : x      ->  last matching iteration (skolemised)
  sequence/map element k written only   ->  pointwise map
  push_back in every iteration          ->  concatenation
  push_back in some iterations          ->  the t-th element comes from the t-th such iteration
  small matrix                          ->  as scalars, entry by entry
  large matrix, block writes            ->  mloop(base, k, n, step): entries resolved by owner iteration
  break / return in the body            ->  first matching iteration (skolemised)
"""
from terms import *
from interp import *

UNROLL = 70


def exec_loop(I_, s):
    k = s["k"]
    if k == "rfor":
        return range_loop(I_, s)
    if k == "do":
        body = s["b"]
        try:
            I_.exec(body)
        except ContinueEx:
            pass
        except BreakEx:
            return
        s = dict(s, k="while")
    if s.get("i") is not None:
        I_.exec(s["i"])
    cond = s.get("c")
    inc = s.get("n")
    # concrete unrolling as long as the condition is decided
    it = 0
    while True:
        c = decided(I_, cond)
        if c is None:
            break
        if c is False:
            return
        if it >= UNROLL:
            break
        if not const_cond(I_, cond):
            break
        it += 1
        try:
            I_.exec(s["b"])
        except ContinueEx:
            pass
        except BreakEx:
            return
        if inc is not None:
            I_.evx(inc)
    summarise(I_, s, cond, lambda: I_.exec(s["b"]), (lambda: I_.evx(inc)) if inc is not None else None, None)


def const_cond(I_, cond):
    """does the condition evaluate to a constant (not merely a decided formula)?"""
    if cond is None:
        return False
    ps = I_.explore(lambda: I_.cond(cond))
    return len(ps) == 1 and ps[0][1] in (TRUE, FALSE)


def decided(I_, cond):
    if cond is None:
        return None
    ps = I_.explore(lambda: I_.branch(I_.cond(cond)))
    ps = [p for p in ps if p[0] == "normal"]
    if ps and all(p[1] is True for p in ps):
        v = I_.explore(lambda: I_.cond(cond))
        return True if len(v) == 1 and v[0][1] is TRUE else None
    if ps and all(p[1] is False for p in ps):
        return False
    return None


def range_loop(I_, s):
    r = I_.evx(s["r"])
    if isinstance(r, Ptr):
        r = r.lv
    if not isinstance(r, LV):
        r = I_.alloc(r)
    c = I_.load(r)
    if isinstance(c, Ptr):
        r = c.lv
        c = I_.load(r)
    v = s["v"]
    isref = v.get("isref") or v["t"].endswith("&")
    if isinstance(c, Opaque):
        raise Unsupported("range over " + c.tag)
    if not isinstance(c, (Seq, Map)):
        raise Unsupported("range over " + type(c).__name__)

    def bind(k):
        if isinstance(c, Map):
            cur = I_.load(r)
            key = c.key(k)
            if isref:
                x = ("entry", key, r.ext(("kv", k)))
            else:
                x = ("entry", key, I_.alloc(cur.val(k)))
            I_.frames[-1].vars[v["id"]] = I_.alloc(x)
        else:
            lv = r.ext(("i", k))
            I_.frames[-1].vars[v["id"]] = lv if isref else I_.alloc(I_.load(lv))

    n = c.n
    p = pyint(n)
    if p is not None and p <= UNROLL:
        for t in range(p):
            bind(I(t))
            try:
                I_.exec(s["b"])
            except ContinueEx:
                continue
            except BreakEx:
                break
        return
    summarise(I_, s, None, lambda: I_.exec(s["b"]), None, (n, bind))


# ------------------------------------------------------------------ carried locations
def prefix(path, k, line):
    """leading part of an access path that does not vary with the iteration"""
    out = []
    for st in path:
        if st[0] == "f":
            out.append(st)
            continue
        if st[0] in ("i", "kv"):
            ts = subterms(st[1])
            if k in ts or any(isinstance(t, E) and t.op == "v" and t.args[0].startswith(f"h@{line}_") for t in ts):
                break
            out.append(st)
            continue
        break
    return tuple(out)


def get(I_, v, path):
    for st in path:
        v = I_.step(v, st)
    return v


def setp(I_, v, path, x):
    return I_._put(v, path, x)


def diverge(a, b):
    """common prefix of two paths that differ in an index step"""
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    if i < min(len(a), len(b)) and a[i][0] in ("i", "kv") and b[i][0] in ("i", "kv"):
        return a[:i]
    return None


def watched(c, k, reads):
    if isinstance(c, Seq):
        s = Seq(c.n, lambda t: (reads.append(t), c.at(t))[1], c.tag, c.ety)
        s.at = lambda t, c=c: (reads.append(lift(t)), c.at(t))[1]
        return s
    m = Map(c.n, c.key, c.val, c.tag, c.vty, c.default)
    m.known = c.known
    m.val = lambda t, c=c: (reads.append(lift(t)), c.val(t))[1]
    if hasattr(c, "inserted"):
        m.inserted = c.inserted
    return m


def flatten(v):
    """scalar leaves of a value, or None"""
    if isinstance(v, E):
        return [v]
    if isinstance(v, Quat):
        return list(v.comps())
    if isinstance(v, Mx) and v.op == "dense":
        return [x for row in v.args[0] for x in row]
    if isinstance(v, Mx) and small(v):
        d = dense(v)
        return [x for row in d for x in row]
    if isinstance(v, Iter):
        return [v.pos] if isinstance(v.pos, E) else None
    if isinstance(v, Affine):
        a, b = flatten(v.lin), flatten(v.tr)
        return a + b if a is not None and b is not None else None
    if isinstance(v, Obj):
        out = []
        for k in sorted(v.f):
            f = flatten(v.f[k])
            if f is None:
                return None
            out += f
        return out
    return None


def unflatten(v, xs):
    xs = list(xs)
    def go(v):
        if isinstance(v, E):
            return xs.pop(0)
        if isinstance(v, Quat):
            return Quat(*[xs.pop(0) for _ in range(4)])
        if isinstance(v, Mx):
            r, c = dims(v)
            return mdense([[xs.pop(0) for _ in range(c)] for _ in range(r)])
        if isinstance(v, Iter):
            return Iter(v.cont, xs.pop(0))
        if isinstance(v, Affine):
            a = go(v.lin)
            return Affine(a, go(v.tr))
        return Obj(v.cls, {k: go(v.f[k]) for k in sorted(v.f)})
    return go(v)


def psum(n, k, body):
    if isc(body) and cv(body) == 0:
        return body
    if k not in subterms(body):
        return mul(n if body.sort == "I" else toreal(n), body)
    if isc(n):
        s = I(0) if body.sort == "I" else R(0)
        if 0 <= cv(n) <= 40:
            for t in range(cv(n)):
                s = add(s, subst(body, {k: I(t)}))
            return s
    # split off the constant part
    if body.op == "add" and body.sort == "R":
        r = I(0) if body.sort == "I" else R(0)
        for x in body.args:
            r = add(r, psum(n, k, x))
        return r
    if body.op == "mul" and body.args[0].op == "c" and body.sort == "R":
        return mul(body.args[0], psum(n, k, body.args[1]))
    return mk("psum", (n, k, body), body.sort)


class LoopInv:
    """user-supplied inductive invariant of a loop.  havoc() writes the invariant's state for arbitrary ghost values
    into the store and assumes the invariant's facts; entry() and step() yield (name, goal, extra assumptions) that
    show the state before the loop, and the state after one iteration, to be such states.  Nothing is believed: if
    entry() is not proved the hint does not fit and there is no proof; every step() goal becomes an obligation."""

    def fits(self, I_, s, writes): raise NotImplementedError
    def havoc(self, I_): raise NotImplementedError
    def covers(self, I_, lv): raise NotImplementedError
    def entry(self, I_): raise NotImplementedError
    def step(self, I_): raise NotImplementedError
    ranged = False          # also for loops over a container
    def lemmas(self, I_): pass
    def pre(self, I_, s): pass


def invariant_range(I_, s, body, ranged, H):
    """a loop over a container, with the position made a counter"""
    c = I_.alloc(I(0))

    def step():
        ranged[1](I_.load(c))
        body()
    return invariant_loop(I_, s, lambda: lt(I_.load(c), ranged[0]), step, lambda: I_.put(c, add(I_.load(c), I(1))), H)


def invariant_loop(I_, s, cond, body, inc, H):
    test = cond if callable(cond) or cond is None else (lambda: I_.cond(cond))
    line = s.get("l", 0)
    st0 = I_.snap()
    limit = I_.nloc

    def run():
        if cond is not None and not I_.branch(test()):
            return "exit"
        try:
            body()
        except ContinueEx:
            pass
        if inc is not None:
            inc()
        return "next"

    def explore():
        ow, I_.writes = I_.writes, []
        ws = I_.writes
        try:
            ps = I_.explore(run)
        finally:
            I_.writes = ow
        I_.old_statics(st0, {w.loc for w in ws if w.loc < 0})
        return [p for p in ps if p[0] != "abort"], [w for w in ws if w.loc <= limit]
    H.pre(I_, s)
    fits = H.fits(I_, s, explore()[1])
    I_.restore(st0)
    if not fits:
        return False
    H.begin(I_, s)
    st0 = I_.snap()
    key = (line, tuple(I_.pc), tuple(sorted((k, v) for k, v in st0[0].items() if isinstance(v, E))))
    done = I_.P.__dict__.setdefault("invdone", {})
    if key not in done:
        for nm, g, extra, *_ in H.entry(I_):
            if not I_.P.entails(list(I_.pc) + list(extra), g):
                raise Unsupported(f"loop at line {line}: the invariant does not fit ({nm}: {show(g)[:300]})")
            I_.P.prove("loop invariant on entry: " + nm, g, list(I_.pc) + list(extra))
        H.havoc(I_)
        H.lemmas(I_)
        paths, ws = explore()
        for w in ws:
            if not H.covers(I_, w):
                raise Unsupported(f"loop at line {line}: writes a location its invariant does not describe")
        seen = set()
        for p in paths:
            I_.restore(p[2])
            H.lemmas(I_)
            for (what, g, pc) in p[2][3][len(st0[3]):]:
                if (what, g) not in seen:
                    seen.add((what, g))
                    I_.P.prove(what, g, pc)
            if p[0] == "normal" and p[1] == "next":
                for nm, g, extra, *keep in H.step(I_):      # keep: the hypotheses worth using
                    I_.P.prove("loop invariant kept: " + nm, g, [f for f in I_.pc if not keep or keep[0](f)] + list(extra))
        done[key] = any(p[0] in ("break", "return") for p in paths)
        I_.restore(st0)
    H.havoc(I_)
    for lv in H.written(I_):
        if I_.writes is not None:
            I_.writes.append(lv)
    if cond is None:
        raise Unsupported("unbounded loop")
    c = test()
    if not done[key]:
        if not I_.P.feasible(list(I_.pc) + [not_(c)]):
            raise AbortPath("infeasible")
        I_.assume(not_(c))
        return True
    if not I_.branch(c):
        return True
    try:
        body()
    except ContinueEx:
        raise AbortPath("another iteration")
    except BreakEx:
        return True
    raise AbortPath("another iteration")


def erase_loop(I_, s, cond, body, inc):
    """for (it = m.begin(); it != m.end();) that either erases the entry at it or steps over it: with c entries
    visited, those kept so far are followed by the original ones from c on, and it stands between them.  Every path
    of the body is checked to do one of the two; what is kept is the subsequence of the original entries (a ghost
    sequence of their positions), everything else the body does is summarised as for a loop over the entries."""
    st0 = I_.snap()
    ow, I_.writes = I_.writes, []
    ws = I_.writes

    def once():
        if not I_.branch(I_.cond(cond)):
            return "exit"
        try:
            body()
        except ContinueEx:
            pass
        if inc is not None:
            inc()
        return "next"
    try:
        ps = I_.explore(once)
    except Unsupported:
        ps = []
    finally:
        I_.writes = ow
        I_.restore(st0)
    its = {w.loc for w in ws if not w.path and isinstance(st0[0].get(w.loc), Iter)}
    its = [l for l in its if isinstance(st0[0][l].cont, LV) and isinstance(I_.load(st0[0][l].cont), Map) and st0[0][l].pos is I(0)]
    if len(its) != 1:
        return False
    it, cont = LV(its[0]), st0[0][its[0]].cont
    O = I_.load(cont)

    def at(p, lv):
        now = I_.snap()
        I_.restore(p[2])
        v = I_.load(lv)
        I_.restore(now)
        return v
    if not any(getattr(at(p, cont), "erased", (None,))[0] is O for p in ps if p[0] != "abort"):
        return False
    G = I_.alloc(Seq(I(0), lambda t: I(0), "kept", "int"))
    cur = [None]

    def own(w): return w.loc == it.loc or (w.loc == cont.loc and w.path[:len(cont.path)] == cont.path)

    def quietly(lv, v):
        I_.store[lv.loc] = setp(I_, I_.store[lv.loc], lv.path, v)

    def step():
        c, h = cur[0], I_.load(G).n

        def tail(t):
            d = sub(t, h)
            if not (isc(d) and cv(d) >= 0):
                raise Unsupported("loop reads an entry it has passed")
            return add(c, d)
        view = Map(add(h, sub(O.n, c)), lambda t: O.key(tail(t)), lambda t: O.val(tail(t)), O.tag + "@", O.vty, O.default)
        quietly(cont, view)
        quietly(it, Iter(cont, h))
        ow, I_.writes = I_.writes, []
        try:
            try:
                body()
            except ContinueEx:
                pass
            except (BreakEx, ReturnEx):
                raise Unsupported("leaving a loop that erases entries")
            if inc is not None:
                inc()
        finally:
            if ow is not None:
                ow += [w for w in I_.writes if not own(w)]
            I_.writes = ow
        m, p = I_.load(cont), I_.load(it)
        if not isinstance(p, Iter):
            raise Unsupported("iterator")
        if m is view and p.pos is add(h, I(1)):
            I_.put(G, I_.load(G).push(c))
        elif not (getattr(m, "erased", (None,))[0] is view and m.erased[1] is h and p.pos is h):
            raise Unsupported("loop that neither erases the entry nor steps over it")
        quietly(cont, O)
        quietly(it, Iter(cont, I(0)))

    def start(k): cur[0] = k
    summarise(I_, s, None, step, None, (O.n, start))
    g = I_.load(G)
    I_.put(cont, Map(g.n, lambda t: O.key(g.at(t)), lambda t: O.val(g.at(t)), O.tag + "|", O.vty, O.default))
    I_.put(it, Iter(cont, "end"))
    return True


def summarise(I_, s, cond, body, inc, ranged):
    line = s.get("l", 0)
    fnm = I_.frames[-1].fn["fn"] if I_.frames[-1].fn else "?"
    for H in I_.loop_invs.get(fnm, []):
        if ranged is None and invariant_loop(I_, s, cond, body, inc, H):
            return
        if ranged and H.ranged and invariant_range(I_, s, body, ranged, H):
            return
    if ranged is None and cond is not None and erase_loop(I_, s, cond, body, inc):
        return
    k = var(f"k@{line}", "I")
    st0 = I_.snap()
    loc_limit = I_.nloc
    closed = {}          # (loc, prefix) -> closed-form value at head of iteration k
    kind = {}            # how it was closed
    carried = {}         # (loc, prefix) -> head value
    reads = {}
    nsym = None          # trip count
    final = None
    for rnd in range(14):
        I_.restore(st0)
        for rd in reads.values():
            rd.clear()
        # head state
        heads = {}
        for key, hv in carried.items():
            loc, pre = key
            base = st0[0][loc]
            v = closed.get(key, hv)
            I_.store[loc] = setp(I_, I_.store[loc], pre, v)
        n_pc = len(I_.pc)
        I_.assume(le(I(0), k))
        if nsym is not None:
            I_.assume(lt(k, nsym))
        elif ranged:
            I_.assume(lt(k, ranged[0]))
        ow, I_.writes = I_.writes, []
        writes = I_.writes
        iterlv = {}

        def run():
            if cond is not None:
                c = I_.cond(cond)
                run.conds.append(c)
                if not I_.branch(c):
                    return "exit"
            if ranged:
                ranged[1](k)
            try:
                body()
            except ContinueEx:
                pass
            if inc is not None:
                inc()
            return "next"
        run.conds = []
        try:
            paths = I_.explore(run)
        finally:
            I_.writes = ow
        I_.restore(st0)
        paths = [p for p in paths if p[0] != "abort"]
        # new written locations
        new = False
        I_.old_statics(st0, {lv.loc for lv in writes if lv.loc < 0})
        for lv in writes:
            if lv.loc > loc_limit:
                continue
            pre = prefix(lv.path, k, line)
            for q in carried:
                if q[0] == lv.loc:
                    dv = diverge(q[1], pre)
                    if dv is not None:
                        pre = dv
            key = (lv.loc, pre)
            if any(key[0] == q[0] and key[1][:len(q[1])] == q[1] for q in carried):
                continue
            # a shorter prefix subsumes longer ones
            for q in [q for q in carried if q[0] == key[0] and q[1][:len(key[1])] == key[1]]:
                del carried[q]
                closed.pop(q, None)
            v0 = get(I_, st0[0][key[0]], key[1])
            carried[key] = head_of(I_, v0, key, k, reads, line)
            new = True
        if new:
            closed.clear()
            kind.clear()
            nsym = None
            continue
        ends = [p for p in paths if p[0] == "normal" and p[1] == "next"]
        if not ends and not any(p[0] in ("break", "return") for p in paths):
            if all(p[0] == "normal" and p[1] == "exit" for p in paths):
                I_.restore(st0)
                return
        # close what can be closed now
        progress = False
        closed0 = dict(closed)
        for key in carried:
            if key in closed:
                continue
            v0 = get(I_, st0[0][key[0]], key[1])
            hv = carried[key]
            outs = []
            for p in ends:
                o = get(I_, p[2][0][key[0]], key[1])
                if isinstance(o, Seq) and isinstance(hv, Seq) and o is not hv:
                    o = own_elements(o, hv, p[2][0], loc_limit)
                outs.append((and_(*p[3][0:]), o))
            cf = close(I_, key, v0, hv, outs, k, carried, closed0, writes, reads, st0)
            if cf is not None:
                closed[key] = cf[1]
                kind[key] = cf[0]
                progress = True
        if progress:
            continue
        rest = [q for q in carried if q not in closed]
        if rest:
            raise Unsupported(f"loop at line {line}: no closed form for {[describe(I_, q, st0) for q in rest]}")
        # trip count
        if ranged:
            nsym = ranged[0]
        elif nsym is None:
            cs = []
            for c in run.conds:
                if c not in cs:
                    cs.append(c)
            if len(cs) != 1:
                raise Unsupported(f"loop at line {line}: condition")
            nsym = trip(I_, cs[0], k, line, st0)
            if nsym is None:
                return None          # loop body not executed (state restored by trip)
            st0 = I_.snap()
            continue
        final = (paths, ends)
        break
    else:
        raise Unsupported(f"loop at line {line}: no fixpoint")
    paths, ends = final
    I_.restore(st0)
    # container hypotheses: reads at k or later only
    for key, rd in reads.items():
        if kind.get(key) != "pointwise":
            continue
        for t in set(rd):
            if t is k:
                continue
            if not I_.P.entails(list(I_.pc) + [le(I(0), k), lt(k, nsym)], le(k, t)) :
                raise Unsupported(f"loop at line {line}: reads element {show(t)} of a container it writes")
    exits = [p for p in paths if p[0] in ("break", "return")]
    # side obligations of the arbitrary iteration
    seen = set()
    for p in paths:
        for ob in p[2][3][len(st0[3]):]:
            kk = (ob[0], ob[1])
            if kk not in seen:
                seen.add(kk)
                I_.side.append(ob)
    evs = [(and_(*p[3]), p[2][2][len(st0[2]):]) for p in paths if p[0] == "normal" and p[1] == "next"]
    if any(x[1] for x in evs):
        I_.events.append(("loop", k, nsym, evs, line))
    if exits:
        exit_conds = or_(*[and_(*[c for c in p[3]]) for p in exits]) if len(exits) > 1 else and_(*exits[0][3])
        rng = [le(I(0), k), lt(k, nsym)]
        def body_c(t): return subst(exit_conds, {k: t})
        b = I_.branch(fresh_flag(I_, line))
        q = var(f"q@{line}", "I")
        if b:
            m = fresh(f"first@{line}_", "I")
            if any(x[1] for x in evs):
                I_.events.pop()
                I_.events.append(("loop", k, m, evs, line))
            for f in (le(I(0), m), lt(m, nsym), body_c(m)):
                I_.assume(f)
            I_.assume(mk("forall", (q, implies(and_(le(I(0), q), lt(q, m)), not_(body_c(q)))), "B"))
            if not I_.P.feasible(I_.pc):
                raise AbortPath("infeasible")
            for key in carried:
                I_.store[key[0]] = setp(I_, I_.store[key[0]], key[1], at_head(closed[key], kind[key], get(I_, st0[0][key[0]], key[1]), k, m, paths, key, I_, nsym))
                I_.note_write(key)
            if ranged:
                ranged[1](m)
            elif cond is not None:
                if not I_.branch(I_.cond(cond)):
                    raise AbortPath("infeasible")
            try:
                body()
            except ContinueEx:
                raise AbortPath("infeasible")
            except BreakEx:
                return
            raise AbortPath("infeasible")
        I_.assume(mk("forall", (q, implies(and_(le(I(0), q), lt(q, nsym)), not_(body_c(q)))), "B"))
    # state after the loop
    for key in carried:
        v0 = get(I_, st0[0][key[0]], key[1])
        x = at_head(closed[key], kind[key], v0, k, nsym, paths, key, I_, nsym)
        I_.store[key[0]] = setp(I_, I_.store[key[0]], key[1], x)
        I_.note_write(key)


def fresh_flag(I_, line):
    return fresh(f"exits@{line}_", "B")


def describe(I_, key, st0):
    v = st0[0][key[0]]
    nm = ".".join(str(x[1]) for x in key[1])
    for fr in I_.frames:
        if fr.fn:
            for p in fr.fn["ps"]:
                lv = fr.vars.get(p["id"])
                if lv is not None and lv.loc == key[0]:
                    nm = p["name"] + ("." + nm if nm else "")
    return f"{nm or 'local'}:{type(get(I_, v, key[1])).__name__}"


def head_of(I_, v0, key, k, reads, line):
    """symbolic head value"""
    if isinstance(v0, (Seq, Map)):
        rd = reads.setdefault(key, [])
        return watched(v0, k, rd)
    fl = flatten(v0)
    if fl is not None:
        return unflatten(v0, [fresh(f"h@{line}_", x.sort) for x in fl])
    if isinstance(v0, Mx):
        return mvar(f"h@{line}_{fresh('m', 'I').args[0]}", v0.r, v0.c)
    if isinstance(v0, (Str, Opaque, Ptr)):
        return v0
    if isinstance(v0, Obj):
        return Obj(v0.cls, {f: head_of(I_, x, (key[0], key[1] + (("f", f),)), k, reads, line) for f, x in v0.f.items()})
    raise Unsupported("loop-carried " + type(v0).__name__)


def own_elements(o, hv, store, loc_limit):
    """an object made in the iteration and handed to the sequence: the sequence is its only owner once the iteration
    is over, so the element is the object as the iteration left it"""
    d = sub(o.n, hv.n)
    if isc(d) and cv(d) == 1:
        x = o.at(hv.n)
        if isinstance(x, Ptr) and isinstance(x.lv, LV) and x.lv.loc > loc_limit and not x.lv.path and x.lv.loc in store:
            y = store[x.lv.loc]
            r = Seq(o.n, lambda t: y if t is hv.n else o.at(t), o.tag, o.ety)
            r.pushed_from = o.pushed_from
            return r
    return o


def heads_in(x, carried, closed, me):
    """head symbols of not yet closed locations occurring in x"""
    hs = set()
    for key, hv in carried.items():
        if key in closed:
            continue
        fl = flatten(hv)
        if fl:
            hs |= set(fl)
        elif isinstance(hv, Mx):
            hs.add(hv)
    st = subterms(x)
    return [h for h in hs if h in st]


def merged(outs):
    r = outs[-1][1]
    for c, v in reversed(outs[:-1]):
        r = merge(c, v, r)
    return r


def close(I_, key, v0, hv, outs, k, carried, closed, writes, reads, st0):
    if not outs:
        return ("const", v0)
    ws = [w for w in writes if w.loc == key[0] and tuple(w.path[:len(key[1])]) == key[1]]
    if isinstance(v0, (Seq, Map)):
        sub_ = [w.path[len(key[1]):] for w in ws]
        if all(p and p[0][0] in ("i", "kv") for p in sub_):
            for p in sub_:
                t = p[0][1]
                if t is not k and not I_.P.entails(list(I_.pc) + [le(I(0), k)], eq(t, k)):
                    hs = heads_in(t, carried, closed, key)
                    if hs:
                        return None
                    raise Unsupported(f"element {show(t)} written in iteration {show(k)}")
            # wait until every other carried scalar in the written element is closed
            mv = merged([(c, (o.at(k) if isinstance(o, Seq) else o.val(k))) for c, o in outs])
            if any_heads(mv, carried, closed, key):
                return None
            return ("pointwise", hv)
        if isinstance(v0, Seq) and all(not p for p in sub_):
            ok = []
            for c, o in outs:
                if o is hv:
                    ok.append(None)
                    continue
                d = sub(o.n, hv.n)
                if not (isc(d) and cv(d) == 1):
                    raise Unsupported("sequence grows by other than one element per iteration")
                if o.pushed_from is not hv:
                    raise Unsupported("sequence changed other than by push_back in a loop")
                ok.append(o)
            if any(o is None for o in ok):
                return selected(I_, v0, hv, outs, k, carried, closed, key)
            el = merged([(c, o.at(hv.n)) for c, o in outs])
            if any_heads(el, carried, closed, key):
                return None
            return ("append", Seq(add(v0.n, k), lambda t: vsubst(el, {k: t}) if v0.n is I(0) else merge(lt(t, v0.n), v0.at(t), vsubst(el, {k: sub(t, v0.n)})), v0.tag, v0.ety))
        raise Unsupported("container rewritten in a loop: " + describe(I_, key, st0))
    fl0, flh = flatten(v0), flatten(hv)
    if fl0 is not None:
        mv = merged(outs)
        flo = flatten(mv)
        if flo is None or len(flo) != len(fl0):
            raise Unsupported("loop-carried value changes shape")
        res = []
        kinds = []
        for x0, h, x in zip(fl0, flh, flo):
            r = close_scalar(I_, x0, h, x, k, carried, closed, key)
            if r is None:
                return None
            kinds.append(r[0])
            res.append(r[1])
        return ("scalars", unflatten(v0, res))
    if isinstance(v0, Mx):
        mv = merged(outs)
        if not (mv.r is v0.r and mv.c is v0.c):
            raise Unsupported("matrix resized in a loop")
        if [h for h in heads_in(mv, carried, closed, key) if h is not hv]:
            return None
        return ("mloop", mmk("mloop", (v0, k, mv, hv, k), v0.r, v0.c))
    if isinstance(v0, Obj):
        raise Unsupported("object rewritten in a loop")
    mv = merged(outs)
    return ("opaque", mv if mv is hv else (Str((("opq", "loop"),)) if isinstance(v0, Str) else v0))


def selected(I_, v0, hv, outs, k, carried, closed, me):
    """conditional push_back: element t of the result is the one pushed in iteration sel(t), the t-th iteration whose
    condition holds; the length is the number of those iterations"""
    app_ = [(c, o) for c, o in outs if o is not hv]
    cond = or_(*[c for c, _ in app_]) if len(app_) > 1 else app_[0][0]
    if heads_in(cond, carried, closed, me):
        return None
    el = merged([(c, o.at(hv.n)) for c, o in app_])
    if any_heads(el, carried, closed, me):
        return None
    name = f"sel{fresh('s', 'I').args[0]}"
    q = k_bound(k)
    def count(n): return psum(n, q, subst(ite(cond, I(1), I(0)), {k: q}))
    def ax(ts):
        out = []
        for a in ts:
            t, n, i = a.args[1], a.args[2], a
            out += [implies(and_(le(v0.n, t), lt(t, add(v0.n, count(n)))),
                            and_(le(I(0), i), lt(i, n), subst(cond, {k: i}), eq(add(v0.n, count(i)), t)))]
            out += [implies(and_(le(v0.n, t), lt(t, b.args[1]), lt(b.args[1], add(v0.n, count(n)))), lt(i, b)) for b in ts if b is not a and b.args[2] is n]
        return out
    I_.P.axioms[name] = ax
    def at(t):
        i = app(name, [lift(t), k], "I")
        e = vsubst(el, {k: i})
        return e if v0.n is I(0) else merge(lt(t, v0.n), v0.at(t), e)
    return ("append", Seq(add(v0.n, count(k)), at, v0.tag, v0.ety))


def any_heads(v, carried, closed, key):
    fl = flatten(v)
    if fl is None:
        if isinstance(v, Mx):
            return bool(heads_in(v, carried, closed, key))
        if isinstance(v, Obj):
            return any(any_heads(x, carried, closed, key) for x in v.f.values())
        return False
    return any(heads_in(x, carried, closed, key) for x in fl)


def close_scalar(I_, x0, h, x, k, carried, closed, key):
    """closed form at the head of iteration k, or None if it depends on something not closed yet"""
    if x is h:
        return ("const", x0)
    if x.sort == "B":
        hs = heads_in(x, carried, closed, key)
        if not hs:
            return ("last", ite(lt(I(0), k), subst(x, {k: sub(k, I(1))}), x0))
        if hs != [h]:
            if h not in hs:
                return None
        # latching flag: x' = h || c(k)  /  h && c(k)
        t, f = subst(x, {h: TRUE}), subst(x, {h: FALSE})
        if heads_in(t, carried, closed, key) or heads_in(f, carried, closed, key):
            return None
        raise Unsupported("boolean loop-carried flag")
    hs = heads_in(x, carried, closed, key)
    if not hs:
        return ("last", ite(lt(I(0), k), subst(x, {k: sub(k, I(1))}), x0))
    if any(g is not h for g in hs):
        # other open heads
        d = sub(x, h)
        others = [g for g in heads_in(d, carried, closed, key)]
        if others:
            return None
    d = add_delta(I_, x, h)
    if d is not None and not heads_in(d, carried, closed, key):
        return ("sum", add(x0, psum(k, k_bound(k), subst(d, {k: k_bound(k)}))))
    # conditional last match
    if x.op == "ite":
        c, a, b = x.args
        neg_ = b is not h
        if a is h or b is h:
            cc, ee = (not_(c), b) if a is h else (c, a)
            if not heads_in(cc, carried, closed, key) and not heads_in(ee, carried, closed, key):
                L = last_match(I_, k, cc)
                return ("lastmatch", ite(le(I(0), L), subst(ee, {k: L}), x0))
    raise Unsupported(f"recurrence {show(x)[:200]}")


def last_match(I_, k, c):
    """the last iteration t < k in which c(t) held, or -1.  A symbol per condition, defined by its axioms."""
    z = var("last!t", "I")
    c = subst(c, {k: z})
    outer = sorted((v for v in subterms(c) if isinstance(v, E) and v.op == "v" and str(v.args[0]).startswith("k@")), key=lambda v: v.args[0])
    tab = I_.P.__dict__.setdefault("lastm", {})
    if c not in tab:
        nm = tab[c] = f"last{len(tab)}"
        q = var("last!q", "I")
        def ax(ts):
            out = []
            for t in ts:
                n = t.args[1]
                at = dict(zip(outer, t.args[2:]))
                ct = subst(c, at)
                out += [le(I(-1), t), implies(le(I(0), n), lt(t, n)), implies(le(I(0), t), subst(ct, {z: t})),
                        forall_(q, implies(and_(lt(t, q), le(I(0), q), lt(q, n)), not_(subst(ct, {z: q}))))]
            return out
        I_.P.axioms[nm] = ax
    return app(tab[c], (k, *outer), "I")


def forall_(q, b): return mk("forall", (q, b), "B")


def k_bound(k): return var("t" + k.args[0], "I")


def add_delta(I_, x, h):
    """d with x = h + d and h not in d, or None"""
    d = sub(x, h)
    if h not in subterms(d):
        return d
    # distribute over ite
    def go(e):
        if e is h:
            return I(0) if h.sort == "I" else R(0)
        if e.op == "ite":
            if h in subterms(e.args[0]):
                return None
            a, b = go(e.args[1]), go(e.args[2])
            return None if a is None or b is None else ite(e.args[0], a, b)
        d = sub(e, h)
        if h in subterms(d):
            # perhaps nested: e = (ite ...) + rest
            if e.op == "add":
                for y in e.args:
                    if h in subterms(y):
                        g = go(y)
                        if g is None:
                            return None
                        r = add(sub(e, y), g)
                        return None if h in subterms(r) else r
            return None
        return d
    return go(x)


def at_head(cf, kd, v0, k, m, paths, key, I_, nsym):
    """closed form at iteration m"""
    if kd == "pointwise":
        ends = [p for p in paths if p[0] == "normal" and p[1] == "next"]
        outs = [(and_(*p[3]), get(I_, p[2][0][key[0]], key[1])) for p in ends]
        is_seq = isinstance(v0, Seq)
        memo = {}
        def elt(t):
            t = lift(t)
            old = (v0.at if is_seq else v0.val)(t)
            c = and_(le(I(0), t), lt(t, m))
            if c is FALSE:
                return old
            if "e" not in memo:
                memo["e"] = merged([(cc, (o.at(k) if is_seq else o.val(k))) for cc, o in outs])
            new = vsubst(memo["e"], {k: t})
            return merge(c, new, old) if c is not TRUE else new
        if is_seq:
            return Seq(v0.n, elt, v0.tag, v0.ety)
        r = Map(v0.n, v0.key, elt, v0.tag, v0.vty, v0.default)
        r.known = dict(v0.known)
        if hasattr(v0, "inserted"):
            r.inserted = v0.inserted
        return r
    if kd == "mloop":
        b, kk, step, hv, _ = cf.args
        return mmk("mloop", (b, kk, step, hv, m), cf.r, cf.c)
    if k is m:
        return cf
    return vsubst(cf, {k: m})


def trip(I_, c, k, line, st0):
    """number of iterations: the loop runs while c(k) holds; c must be linear in k"""
    if c is TRUE:
        raise Unsupported("unbounded loop")
    op = c.op
    neq = False
    if op == "not" and c.args[0].op == "eq":
        a, b = c.args[0].args
        neq = True
    elif op in ("lt", "le"):
        a, b = c.args
    else:
        raise Unsupported("loop condition " + show(c)[:100])
    d = sub(b, a)
    # d = A - s*k
    z = subst(d, {k: I(0)})
    one = subst(d, {k: I(1)})
    s = sub(z, one)
    if k in subterms(z) or not isc(s):
        raise Unsupported("loop condition is not linear")
    if neq:
        if cv(s) < 0:
            z, s = neg(z), neg(s)
        if cv(s) != 1:
            raise Unsupported("!= loop with step")
        I_.side.append((f"loop counter reaches its bound exactly (line {line})", le(I(0), z), list(I_.pc)))
        I_.assume(le(I(0), z))
    if not isc(s) or cv(s) <= 0:
        raise Unsupported("loop does not make progress")
    if d.sort == "R":
        # number of k >= 0 with z - s*k > 0 (lt) or >= 0 (le)
        q = div(z, s)
        n = floori(q)
        if op == "le":
            n = add(n, I(1))
        else:
            n = neg(floori(neg(q)))
    else:
        if op == "le":
            z = add(z, I(1))
        n = z if cv(s) == 1 else idiv(add(z, I(cv(s) - 1)), I(cv(s)))
    I_.restore(st0)
    if not I_.branch(lt(I(0), n)):
        return None
    return n
