"""Log files: one header before the rows, written only when enabled; every row has a field for every column."""
import re
from common import *
from spec import *
import spec_ekf as SE
import lib
import loops
from spec_gps import Box, comps
from spec_upd import of, body


# ------------------------------------------------------------------ text
def c_vec_text(I_, this, args, f):
    """VectorToCommaString: every entry after a comma, in order"""
    return Str((("vec", lib.val(I_, args[0])),))


def c_quat_text(I_, this, args, f):
    """QuaternionToCommaString: w, x, y, z, each after a comma"""
    return Str((("quat", lib.val(I_, args[0])),))


def c_header_text(I_, this, args, f):
    """EnumerateHeader: the name numbered from 0, each after a comma"""
    return Str((("hdr", lib.val(I_, args[0]), lib.val(I_, args[1])),))


TEXT = {"VectorToCommaString": c_vec_text, "QuaternionToCommaString": c_quat_text, "EnumerateHeader": c_header_text}


def c_row(I_, this, args, f):
    I_.events.append(("row", this, [lib.val(I_, a) for a in args]))
    return None


ROWS = {"DataLogger::Log": c_row, "DataLogger::RateLimitedLog": c_row, "DebugLogger::Log": lambda *a: None}


def const(x):
    """integer behind a concrete expression"""
    if isinstance(x, int):
        return x
    if isinstance(x, E) and x.op == "c":
        return int(x.val)
    return None


def num_const(x):
    if isinstance(x, E):
        for n in range(64):
            if x is I(n) or x is R(n):
                return n
    return None


def fields(P, pc, s):
    """the comma-separated fields of a text; a field is a list of pieces (text or value)"""
    if not isinstance(s, Str):
        raise Unsupported("a row that is not text")
    out, cur, open_ = [], [], True

    def close():
        nonlocal cur, open_
        if open_:
            out.append(cur)
        cur, open_ = [], False

    for it in s.items:
        k = it[0]
        if k == "lit":
            parts = it[1].split(",")
            if parts[0]:
                if not open_:
                    raise Unsupported("text right after a list of fields")
                cur.append(parts[0])
            for x in parts[1:]:
                close()
                open_ = True
                if x:
                    cur.append(x)
        elif k == "num":
            if not open_:
                raise Unsupported("a value right after a list of fields")
            cur.append(it[1])
        elif k == "opq":
            if not open_:
                raise Unsupported("a value right after a list of fields")
            cur.append(None)
        elif k in ("vec", "quat", "hdr"):
            close()
            if k == "hdr":
                nm = text(it[1])
                n = num_const(it[2])
                if n is None:
                    raise Unsupported("header of unknown length")
                out += [[f"{nm}_{i}"] for i in range(n)]
            elif k == "quat":
                out += [[x] for x in it[1].comps()]
            else:
                v = it[1]
                d = dims(v)
                n = d[0] * d[1] if d else None
                if n is None:
                    for m in range(1, 25):
                        if P.entails(pc, and_(eq(v.r, I(m)), eq(v.c, I(1)))):
                            n, d = m, (m, 1)
                            break
                if n is None:
                    raise Unsupported("a list of fields of unknown length")
                out += [[elem(v, i % d[0], i // d[0])] for i in range(n)]
        else:
            raise Unsupported("text of kind " + k)
    close()
    return out


def text(s):
    """the text of a concrete string"""
    if isinstance(s, str):
        return s
    r = ""
    for it in s.items:
        if it[0] == "lit":
            r += it[1]
        elif it[0] == "num" and num_const(it[1]) is not None:
            r += str(num_const(it[1]))
        else:
            raise Unsupported("text not known")
    return r


def names(fs):
    out = []
    for f in fs:
        r = ""
        for x in f:
            if isinstance(x, str):
                r += x
            elif num_const(x) is not None:
                r += str(num_const(x))
            else:
                raise Unsupported("column name not known")
        out.append(r)
    return out


def group(name, v):
    """columns name_0, name_1, ... holding the entries of v (a vector, a quaternion, or a number of unknown values)"""
    if isinstance(v, int):
        return [(f"{name}_{i}", None) for i in range(v)]
    if isinstance(v, Quat):
        c = v.comps()
    elif isinstance(v, Mx):
        c = entries(v)
    else:
        c = list(v)
    return [(f"{name}_{i}", x) for i, x in enumerate(c)]


def entries(v):
    d = dims(v)
    if d is None:
        raise Unsupported("a list of values of unknown length")
    return [elem(v, i % d[0], i // d[0]) for i in range(d[0] * d[1])]


def same_header(p, what, s, cols):
    got = names(fields(p.P, list(p.I.pc), s))
    p.P.record(what + ": the columns are those of its rows", got == [c[0] for c in cols], "structure", time.time())
    if got != [c[0] for c in cols]:
        print("  columns", [(a, b) for a, b in zip(got + [None] * 99, [c[0] for c in cols] + [None] * 99) if a != b][:3])


def same_row(p, what, s, cols):
    """a row with one field per column, the field under each name being that quantity"""
    fs = fields(p.P, list(p.I.pc), s)
    p.P.record(what + ": as many fields as columns", len(fs) == len(cols), "structure", time.time())
    if len(fs) != len(cols):
        print("  fields", len(fs), "columns", len(cols))
        return
    for f, (nm, x) in zip(fs, cols):
        if x is None:
            if f == []:
                p.P.record(f"{what}: {nm} is not left empty", False, "structure", time.time())
            continue
        if len(f) == 1 and isinstance(f[0], str) and re.fullmatch(r"-?\d+(\.\d+)?", f[0]):
            f = [R(f[0])]
        if len(f) != 1 or not isinstance(f[0], E):
            p.P.record(f"{what}: {nm} is a number", False, "structure", time.time())
            continue
        a = f[0]
        if a.sort == "B":
            a = ite(a, I(1), I(0))
        if isinstance(x, tuple):
            C, k = colsq(a)
            if C is not None:
                p.prove(f"{what}: {nm}", and_(B(C is x[1]), eq(k, x[2])))
                continue
            x = elem(mmul(mtr(x[1]), x[1]), x[2], x[2])
        if x.sort == "B":
            x = ite(x, I(1), I(0))
        p.prove(f"{what}: {nm}", eq(toreal(a), toreal(x)))


def colsq(a):
    """(C, k) if the term is the square of column k of C"""
    if a.op != "melem" or a.args[0].op != "mmul" or a.args[1] is not a.args[2]:
        return None, None
    X, k = a.args[0].args[1], a.args[1]
    if a.args[0].args[0] is not mtr(X):
        return None, None
    while X.op == "mblk":
        b, i0, j0 = X.args
        if i0 is not I(0) or X.r is not b.r:
            return None, None
        X, k = b, add(k, j0)
    return X, k


def diag(e, i, n, root):
    """variances of n states from i on"""
    C = e.f["m_cov"]
    if not root:
        return [elem(C, add(i, I(k)), add(i, I(k))) for k in range(n)]
    return [("square of a column", C, add(i, I(k))) for k in range(n)]


# ------------------------------------------------------------------ the loggers
def P25(ctx):
    logger(ctx)
    helpers(ctx)
    constructors(ctx)
    rows(ctx)


def logger(ctx):
    h = Box()

    def setup(args):
        def s(I_):
            h.o = I_.sym("DataLogger", "log")
            h.m, h.t = Str((("opq", "message"),)), var("t", "R")
            h.lv = I_.alloc(h.o)
            h.ml = I_.alloc(h.m)
            return h.lv, [h.ml, h.t][:args]
        return s

    def opened(I_, o, args, e):
        I_.events.append(("open", o, [lib.val(I_, a) for a in args]))
        return None

    def rest(p, T, but):
        for f in T.f:
            if f not in but and isinstance(T.f[f], E):
                p.prove("keeps " + f, eq(T.f[f], h.o.f[f]))
            if isinstance(T.f[f], Str):
                p.P.record("keeps " + f, T.f[f].items == h.o.f[f].items, "structure", time.time())

    def wrote(p, tag, first, msg, cond):
        """what reached the file: the header exactly when the file is opened, then the row"""
        ev = [x for x in p.I.events if x[0] in ("open", "out")]
        want = []
        if first:
            want += ["open", h.o.f["m_log_header"], "endl"]
        want += [msg, "endl"]
        got = []
        for x in ev:
            if x[0] == "open":
                got.append("open")
                path = x[2][0]
                ok = isinstance(path, Str) and path.items == h.o.f["m_log_directory"].cat(h.o.f["m_file_name"]).items
                p.P.record("the file named by directory and name", ok, "structure", time.time())
            else:
                y = x[2]
                if isinstance(y, Str):
                    got.append(y)
                elif isinstance(y, Opaque) and "endl" in y.tag:
                    got.append("endl")
                elif isinstance(y, Opaque) and "flush" in y.tag:
                    continue
                else:
                    got.append(y)
        def flat(l):
            out = []
            for x in l:
                if isinstance(x, Str):
                    out += [i for i in x.items]
                elif x == "endl":
                    out.append(("lit", "\n"))
                else:
                    out.append(x)
            text = []
            for x in out:                                        # adjacent literals are one text
                if isinstance(x, tuple) and x[0] == "lit" and text and isinstance(text[-1], tuple) and text[-1][0] == "lit":
                    text[-1] = ("lit", text[-1][1] + x[1])
                elif x != ("lit", ""):
                    text.append(x)
            return text
        p.P.record(tag, flat(got) == flat(want), "structure", time.time())

    LIB = {"lib:open": opened}

    def post_log(I_, p):
        o, T = h.o, p.load(h.lv)
        on, ini = o.f["m_logging_on"], o.f["m_initialized"]
        ev = [x for x in I_.events if x[0] in ("open", "out")]
        if not ev:
            p.prove("writes nothing only when logging is off", not_(on))
            p.prove("off: the count stays", eq(T.f["m_log_count"], o.f["m_log_count"]))
            rest(p, T, ())
            return
        p.prove("writes only when logging is on", on)
        first = any(x[0] == "open" for x in ev)
        p.prove("opens the file exactly for the first row", eq(B(first), not_(ini)))
        wrote(p, "header before the first row" if first else "no header before a later row", first, h.m, on)
        p.prove("the header is never written again", T.f["m_initialized"])
        p.prove("the row is counted", eq(T.f["m_log_count"], add(o.f["m_log_count"], I(1))))
        rest(p, T, ("m_initialized", "m_log_count"))
    ctx.check("DataLogger::Log", setup(1), post_log, contracts=LIB)

    def post_rate(I_, p):
        o, T = h.o, p.load(h.lv)
        on, ti, ini = o.f["m_logging_on"], o.f["m_is_time_init"], o.f["m_initialized"]
        ev = [x for x in I_.events if x[0] in ("open", "out")]
        due = or_(not_(ti), eq(o.f["m_rate"], R(0)), lt(toreal(o.f["m_log_count"]), mul(o.f["m_rate"], sub(h.t, o.f["m_time_init"]))))
        if ev:
            p.prove("a row only when on, and first, without limit, or within the rate", and_(on, due))
            first = any(x[0] == "open" for x in ev)
            p.prove("opens the file exactly for the first row", eq(B(first), not_(ini)))
            wrote(p, "one row, the given one", first, h.m, on)
        else:
            p.prove("no row only when off, or beyond the rate", or_(not_(on), not_(due)))
        p.prove("the header is written at most once", eq(T.f["m_initialized"], or_(ini, B(bool(ev)))))
        start = and_(on, not_(ti))
        p.prove("the clock of the rate starts with the first row", eq(T.f["m_time_init"], ite(start, h.t, o.f["m_time_init"])))
        p.prove("the clock is known from then on", eq(T.f["m_is_time_init"], or_(ti, on)))
        p.prove("counted once", eq(T.f["m_log_count"], add(o.f["m_log_count"], I(1 if ev else 0))))
        rest(p, T, ("m_initialized", "m_log_count", "m_time_init", "m_is_time_init"))
    ctx.check("DataLogger::RateLimitedLog", setup(2), post_rate, contracts=LIB)

    def setter(fn_, ty, field, value):
        def s(I_):
            h.o = I_.sym("DataLogger", "log")
            h.lv = I_.alloc(h.o)
            h.v = Str((("opq", "new"),)) if ty == "std::string" else I_.sym(ty, "new") if ty else None
            return h.lv, ([h.v if isinstance(h.v, E) else I_.alloc(h.v)] if ty else [])

        def post(I_, p):
            T = p.load(h.lv)
            w = value if value is not None else h.v
            if isinstance(w, Str):
                p.P.record("sets " + field, isinstance(T.f[field], Str) and T.f[field].items == w.items, "structure", time.time())
            else:
                p.prove("sets " + field, eq(T.f[field], w))
            for f in T.f:
                if f != field:
                    a, b = T.f[f], h.o.f[f]
                    if isinstance(a, E):
                        p.prove("keeps " + f, eq(a, b))
                    elif isinstance(a, Str):
                        p.P.record("keeps " + f, a.items == b.items, "structure", time.time())
            p.P.record("writes nothing", not I_.events, "structure", time.time())
        ctx.check("DataLogger::" + fn_, s, post)
    setter("EnableLogging", None, "m_logging_on", TRUE)
    setter("SetOutputDirectory", "std::string", "m_log_directory", None)
    setter("SetOutputFileName", "std::string", "m_file_name", None)
    setter("DefineHeader", "std::string", "m_log_header", None)
    setter("SetLogRate", "double", "m_rate", None)

    for n in (2, 3):
        def s(I_, n=n):
            h.d, h.n, h.r = Str((("opq", "dir"),)), Str((("opq", "name"),)), var("rate", "R")
            return None, [I_.alloc(h.d), I_.alloc(h.n), h.r][:n]

        def post(I_, p, n=n):
            T = p.load(p.this)
            p.P.record("its file", T.f["m_log_directory"].items == h.d.items and T.f["m_file_name"].items == h.n.items, "structure", time.time())
            p.prove("nothing is written before logging is enabled", not_(T.f["m_logging_on"]))
            p.prove("no header yet", not_(T.f["m_initialized"]))
            p.prove("no row yet", eq(T.f["m_log_count"], I(0)))
            p.prove("the clock of the rate has not started", not_(T.f["m_is_time_init"]))
            p.prove("the rate", eq(T.f["m_rate"], h.r if n == 3 else R(0)))
        ctx.check("DataLogger::DataLogger", s, post, nparams=n, label=f"DataLogger::DataLogger ({n} parameters)")


class Grows(loops.LoopInv):
    """A loop that writes one field per pass: with the counter at i the text is what it was and the first i fields.
    The text of the first i fields is defined by: none for i = 0, and that of i + 1 is that of i and field i."""

    def __init__(self, field, n): self.field, self.n = field, n

    def fits(self, I_, s, writes):
        st = {w.loc for w in writes}
        self.txt = [l for l in st if isinstance(I_.store.get(l), Str)]
        self.cnt = [l for l in st if isinstance(I_.store.get(l), E) and I_.store[l].sort == "I"]
        return len(self.txt) == 1 and len(self.cnt) == 1 and len(st) == 2

    def begin(self, I_, s):
        self.s0 = I_.store[self.txt[0]]
        self.i = var("i@text", "I")

    def entry(self, I_):
        yield "starts with the first field", eq(I_.store[self.cnt[0]], I(0)), ()
        yield "no negative number of fields", le(I(0), self.n()), ()

    def havoc(self, I_):
        I_.assume(le(I(0), self.i))
        I_.assume(le(self.i, self.n()))
        I_.store[self.cnt[0]] = self.i
        I_.store[self.txt[0]] = self.s0.cat(Str((("first", self.i),)))

    def covers(self, I_, lv): return lv.loc in self.txt + self.cnt
    def written(self, I_): return [LV(self.txt[0]), LV(self.cnt[0])]

    def step(self, I_):
        yield "one field further", eq(I_.store[self.cnt[0]], add(self.i, I(1))), ()
        yield "not beyond the last", le(add(self.i, I(1)), self.n()), ()
        got = I_.store[self.txt[0]]
        a = glue(got.items)
        b = glue(self.s0.cat(Str((("first", self.i),))).items + self.field(self.i))
        yield "the field and nothing else is added", same_text(a, b), ()


def glue(items):
    """adjacent pieces of fixed text joined"""
    out = []
    for it in items:
        if it[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + it[1])
        elif it != ("lit", ""):
            out.append(it)
    return out


def same_text(a, b):
    """formula: the two texts are the same"""
    if len(a) != len(b):
        return B(False)
    g = []
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return B(False)
        if isinstance(x[1], E) and isinstance(y[1], E):
            g.append(eq(x[1], y[1]))
        elif x[1:] != y[1:]:
            return B(False)
    return and_(*g) if g else TRUE


def helpers(ctx):
    """the functions that turn names, vectors and quaternions into fields"""
    h = Box()

    def whole(p, n):
        p.P.record("the text is that of all fields", len(p.retv.items) == 1 and p.retv.items[0][0] == "first", "structure", time.time())
        p.prove("all fields", eq(p.retv.items[0][1], n))

    def setup_v(k):
        def s(I_):
            h.v = mvar("v", var("v.n", "I"), I(1))
            I_.assume(le(I(0), h.v.r))
            h.prec = var("digits", "I")
            return None, [I_.alloc(h.v), h.prec][:k]
        return s
    for k in (1, 2):
        inv = Grows(lambda i: (("lit", ","), ("num", elem(h.v, i, I(0)))), lambda: h.v.r)
        ctx.check("VectorToCommaString", setup_v(k), lambda I_, p: whole(p, h.v.r), nparams=k, loops={"VectorToCommaString": [inv]}, label=f"VectorToCommaString ({k} parameters)")

    def setup_h(I_):
        h.name, h.n = Str((("opq", "name"),)), I_.sym("unsigned int", "n")
        return None, [I_.alloc(h.name), h.n]
    inv = Grows(lambda i: (("lit", ","),) + h.name.items + (("lit", "_"), ("num", i)), lambda: h.n)
    ctx.check("EnumerateHeader", setup_h, lambda I_, p: whole(p, h.n), loops={"EnumerateHeader": [inv]})

    def setup_q(I_):
        h.q = I_.sym("Eigen::Quaternion<double>", "q")
        return None, [I_.alloc(h.q)]

    def post_q(I_, p):
        fs = fields(p.P, list(I_.pc), Str((("lit", "x"),)).cat(p.retv))[1:]
        p.P.record("four fields", len(fs) == 4 and all(len(f) == 1 for f in fs), "structure", time.time())
        for f, x, nm in zip(fs, h.q.comps(), "wxyz"):
            p.prove("field " + nm, eq(f[0], x))
    ctx.check("QuaternionToCommaString", setup_q, post_q)


# ------------------------------------------------------------------ headers
BODY = [("body_pos", 3), ("body_vel", 3), ("body_acc", 3), ("body_ang_pos", 4), ("body_ang_vel", 3), ("body_ang_acc", 3), ("body_cov", 18)]


def cov(name, yes, n): return [(name, n)] if yes else []


def IMU(e, i): return [("imu_pos", 3), ("imu_ang_pos", 4), ("imu_acc_bias", 3), ("imu_gyr_bias", 3)] + cov("imu_ext_cov", e, 6) + cov("imu_int_cov", i, 6) + [("acc", 3), ("omg", 3), ("residual", 6), ("duration", 1)]
def FID(c, f): return [("board_meas_pos", 3), ("board_meas_ang", 4), ("cam_pos", 3), ("cam_ang_pos", 4), ("residual", 6)] + ([("fid_pos", 3), ("fid_ang", 4), ("fid_cov", 6)] if f else []) + cov("cam_cov", c, 6) + [("duration", 1)]
def GPS(e): return ([("ant_pos", 3), ("gps_cov", 3)] if e else []) + [("residual", 3), ("duration", 1)]


def columns(*parts):
    """names of the columns: plain names, and numbered groups (name, n)"""
    out = []
    for x in parts:
        out += [x] if isinstance(x, str) else [f"{x[0]}_{i}" for i in range(x[1])]
    return out


IMU_COLS = lambda e, i: columns("time", "stationary", "score", *IMU(e, i))
FID_COLS = lambda c, f: columns("time", "board", *FID(c, f))
GPS_COLS = lambda e: columns(*"time,lat,lon,alt,x,y,z,ref_lat,ref_lon,ref_alt,ref_heading,is_initialized".split(","), *GPS(e))
MSC_COLS = lambda c: columns("time", ("cam_pos", 3), ("cam_ang_pos", 4), *cov("cam_cov", c, 6), "FeatureTracks", ("duration", 1))
TRI_COLS = columns(*"time,feature,x,y,z".split(","))
BODY_COLS = columns("time", *BODY, "state_size", ("duration", 1))
AUG_COLS = columns("time", ("aug_pos", 3), ("aug_ang", 4))


def constructors(ctx):
    """every log's header; it is written exactly when a rate is configured"""
    h = Box()
    rate = lambda: var("rate", "R")

    def logs(p, T, cols):
        for fld, (c, limited, name) in cols.items():
            L = T.f[fld]
            want = [("lit", name)]
            if "#" in name:
                a, b = name.split("#")
                want = [("lit", a), ("num", p.args[1 if fld == "m_fiducial_logger" else 0]), ("lit", b)]
            got = L.f["m_file_name"]
            p.prove(fld + ": its own file", same_text(glue(got.items), want) if isinstance(got, Str) else B(False))
            same_header(p, fld, L.f["m_log_header"], [(x, None) for x in c])
            p.prove(fld + ": written exactly when a rate is configured", eq(L.f["m_logging_on"], not_(eq(h.rate, R(0)))))
            if limited:
                p.prove(fld + ": has the configured rate", eq(L.f["m_rate"], h.rate))
            p.prove(fld + ": not begun", and_(not_(L.f["m_initialized"]), not_(L.f["m_is_time_init"]), eq(L.f["m_log_count"], I(0))))

    def setup_ekf(I_):
        I_.type_inv = {}
        P_ = I_.sym("EKF::Parameters", "par")
        h.rate = P_.f["data_log_rate"]
        return None, [I_.alloc(P_)]
    ctx.check("EKF::EKF", setup_ekf, lambda I_, p: logs(p, p.load(p.this), {"m_data_logger": (BODY_COLS, True, "body_state.csv"), "m_augmentation_logger": (AUG_COLS, False, "aug_state.csv")}), contracts=TEXT)

    def ctor(fn_, flags, cols, ids=1, more=()):
        for k in range(1 << flags):
            bits = [bool(k >> j & 1) for j in range(flags)]

            def setup(I_, bits=bits):
                h.rate = rate()
                a = [I_.sym("unsigned int", f"id{i}") for i in range(ids)] + [B(b) for b in bits] + [I_.alloc(Str((("opq", "dir"),))), h.rate]
                a += [var(m, "R") for m in more]
                return None, a + [Opaque("ptr:logger")]
            ctx.check(fn_, setup, lambda I_, p, bits=bits: logs(p, p.load(p.this), cols(*bits)), contracts=TEXT, label=f"{fn_} {tuple(int(b) for b in bits)}")
    ctor("ImuUpdater::ImuUpdater", 2, lambda e, i: {"m_data_logger": (IMU_COLS(e, i), True, "imu_#.csv")})
    ctor("GpsUpdater::GpsUpdater", 1, lambda e: {"m_data_logger": (GPS_COLS(e), True, "gps_#.csv")})
    ctor("FiducialUpdater::FiducialUpdater", 2, lambda f, c: {"m_fiducial_logger": (FID_COLS(c, f), False, "fiducial_#.csv")}, ids=2)
    ctor("MsckfUpdater::MsckfUpdater", 1, lambda c: {"m_msckf_logger": (MSC_COLS(c), True, "msckf_#.csv"), "m_triangulation_logger": (TRI_COLS, True, "triangulation_#.csv")}, more=("mindist",))


# ------------------------------------------------------------------ rows
class Tap:
    """the setups and callee contracts of another property's checks, with a postcondition about the rows"""

    def __init__(self, ctx, name, run, label):
        self.ctx, self.name, self.run, self.label = ctx, name, run, label

    def check(self, name, setup, post, label=None, **k):
        if name == self.name:
            self.run(setup, {**k.get("contracts", {}), **TEXT, **ROWS}, {a: b for a, b in k.items() if a not in ("contracts", "side", "lemmas")}, (label or name))

    def fn(self, *a, **k): return None


def rows(ctx):
    """every row has a field for every column of its header; the field under a name is that quantity"""
    import spec_upd, spec_gps, spec_msckf
    h = Box()

    def start(I_, this, args, fix):
        """the given calibration flags; what was there before"""
        u = I_.load(this)
        e = [v for v in (I_.load(a) for a in args if isinstance(a, LV)) if isinstance(v, Obj) and v.cls == "EKF"][0]
        for f, v, m, key, flag in fix:
            if u.f[f].op != "b":
                ex, k = lib.map_pos(I_, e.f["m_state"].f[m], u.f[key])
                o = of(e, m, k)
                I_.assume(eq(o.f[flag], B(v)))
                u = u.set(f, B(v))
        I_.put(this, u)
        h.u, h.e, h.this, h.args = u, e, this, args

    def flags(u, *f): return tuple(u.f[x] is TRUE for x in f)

    def per_flags(name, names_, source, post, what):
        def run(setup, con, kw, label):
            for k in range(1 << len(names_)):
                fix = [(n[0], bool(k >> j & 1)) + n[1:] for j, n in enumerate(names_)]
                fs = "".join(str(int(x[1])) for x in fix)
                if "with biases" in label and not fix[1][1] or "without biases" in label and fix[1][1]:
                    continue

                def s(I_, fix=fix):
                    this, args = setup(I_)
                    start(I_, this, args, fix)
                    return this, args
                ctx.check(name, s, post, contracts=con, label=f"rows: {label} [{fs}]", side=False, **{k_: v for k_, v in kw.items()})
        source(Tap(ctx, name, run, what))

    def row(I_, p, logger, when=None):
        """the rows given to a logger of the object"""
        out = []
        for x in I_.events:
            if x[0] == "row" and isinstance(x[1], LV) and x[1].loc == p.this.loc and x[1].path[-1:] == (("f", logger),):
                out.append(x)
        return out

    def one(I_, p, logger, want):
        r = row(I_, p, logger)
        p.P.record(logger + ": a row exactly when there is something to report", len(r) == (1 if want else 0), "structure", time.time())
        return r[0] if want and len(r) == 1 else None

    def at(T, m, key, p):
        ex, k = lib.map_pos(p.I, T.f["m_state"].f[m], key)
        return of(T, m, k)

    def isroot(p, T):
        root = T.f["m_use_root_covariance"]
        for r in (False, True):
            if p.P.entails(list(p.I.pc), eq(root, B(r))):
                return r
        raise Unsupported("the form of the covariance is not decided on this path")

    def imu_fields(p, T, u, t, still, score, a, w, res):
        o = at(T, "imu_states", u.f["m_id"], p)
        e, i = flags(u, "m_is_extrinsic", "m_is_intrinsic")
        c = [("time", t), ("stationary", I(still)), ("score", score)]
        for nm, f in (("imu_pos", "pos_i_in_b"), ("imu_ang_pos", "ang_i_to_b"), ("imu_acc_bias", "acc_bias"), ("imu_gyr_bias", "omg_bias")):
            c += group(nm, o.f[f])
        if e or i:
            root = isroot(p, T)
            if e:
                c += group("imu_ext_cov", diag(T, o.f["index_extrinsic"], 6, root))
            if i:
                c += group("imu_int_cov", diag(T, o.f["index_intrinsic"], 6, root))
        return c + group("acc", a) + group("omg", w) + group("residual", res) + group("duration", 1)

    def headed(p, cols, want):
        p.P.record("the columns are those of the header", [x[0] for x in cols] == want, "structure", time.time())

    def post_imu(I_, p):
        u, e, args = h.u, h.e, h.args
        T = p.load(args[0])
        ev = [x for x in I_.events if x[0] in ("zero", "predict", "kalman")]
        z = [x for x in ev if x[0] == "zero"]
        moved = any(x[0] == "predict" for x in ev)
        r = one(I_, p, "m_data_logger", moved)
        if r is None:
            return
        t = ite(e.f["m_time_initialized"], sub(args[1], e.f["m_reference_time"]), R(0))
        k = [x for x in ev if x[0] == "kalman"]
        res = entries(k[0][3]) if k else [R(0)] * 6
        cols = imu_fields(p, T, u, t, 0, None, p.load(args[2]), p.load(args[4]), res)
        headed(p, cols, IMU_COLS(*flags(u, "m_is_extrinsic", "m_is_intrinsic")))
        same_row(p, "moving", r[2][0], cols)
        p.prove("limited by the local time", eq(r[2][1], t))

    def post_zero(I_, p):
        u, e, args = h.u, h.e, h.args
        T = p.load(args[0])
        still = any(x[0] == "kalman" for x in I_.events)
        r = one(I_, p, "m_data_logger", still)
        if r is None:
            return
        k = [x for x in I_.events if x[0] == "kalman"][0]
        res = entries(k[3])
        res += [R(0)] * (6 - len(res))
        cols = imu_fields(p, T, u, args[1], 1, None, p.load(args[2]), p.load(args[4]), res)
        headed(p, cols, IMU_COLS(*flags(u, "m_is_extrinsic", "m_is_intrinsic")))
        same_row(p, "stationary", r[2][0], cols)
        p.prove("limited by the local time", eq(r[2][1], args[1]))
    IF = [("m_is_extrinsic", "imu_states", "m_id", "is_extrinsic"), ("m_is_intrinsic", "imu_states", "m_id", "is_intrinsic")]
    per_flags("ImuUpdater::UpdateEKF", IF, spec_upd.P16, post_imu, "")
    per_flags("ImuUpdater::ZeroAccelerationUpdate", IF, spec_upd.P16, post_zero, "")

    def post_gps(I_, p):
        u, e, args = h.u, h.e, h.args
        T = p.load(args[0])
        r = one(I_, p, "m_data_logger", True)
        if r is None:
            return
        t = ite(e.f["m_time_initialized"], sub(args[1], e.f["m_reference_time"]), R(0))
        known = e.f["m_is_lla_initialized"] is TRUE
        lla = entries(p.load(args[2]))
        k = [x for x in I_.events if x[0] == "kalman"]
        an = e.f["m_ang_l_to_e"]
        if known:
            x0, x1, x2 = comps(spec_gps.fvec("l2n", lla + comps(e.f["m_pos_e_in_g"])))
            c_, s_ = spec_gps.c_, spec_gps.s_
            pos = [sub(mul(c_(an), x0), mul(s_(an), x1)), add(mul(s_(an), x0), mul(c_(an), x1)), x2]
        ref = comps(e.f["m_pos_e_in_g"]) if known else [R(0)] * 3
        cols = [("time", t)] + list(zip(("lat", "lon", "alt"), lla)) + list(zip("xyz", pos if known else [R(0)] * 3)) + list(zip(("ref_lat", "ref_lon", "ref_alt"), ref))
        cols += [("ref_heading", an), ("is_initialized", T.f["m_is_lla_initialized"])]
        x, = flags(u, "m_is_extrinsic")
        if x:
            o = at(T, "gps_states", u.f["m_id"], p)
            cols += group("ant_pos", o.f["pos_a_in_b"]) + group("gps_cov", diag(T, o.f["index"], 3, isroot(p, T)))
        cols += group("residual", entries(k[0][3]) if k else [R(0)] * 3) + group("duration", 1)
        headed(p, cols, GPS_COLS(x))
        same_row(p, "GPS", r[2][0], cols)
        p.prove("limited by the local time", eq(r[2][1], t))
    per_flags("GpsUpdater::UpdateEKF", [("m_is_extrinsic", "gps_states", "m_id", "is_extrinsic")], spec_gps.P15, post_gps, "")

    def post_fid(I_, p):
        u, e, args = h.u, h.e, h.args
        T, d = p.load(args[0]), p.load(args[2])
        r = one(I_, p, "m_fiducial_logger", True)
        if r is None:
            return
        t = ite(e.f["m_time_initialized"], sub(args[1], e.f["m_reference_time"]), R(0))
        k = [x for x in I_.events if x[0] == "kalman"]
        p.P.record("a residual to report", len(k) == 1, "structure", time.time())
        if len(k) != 1:
            return
        f, c = flags(u, "m_is_fid_extrinsic", "m_is_cam_extrinsic")
        o, m = at(T, "cam_states", u.f["m_camera_id"], p), at(T, "fid_states", u.f["m_id"], p)
        cols = [("time", t), ("board", u.f["m_id"])] + group("board_meas_pos", d.f["pos_f_in_c"]) + group("board_meas_ang", d.f["ang_f_to_c"])
        cols += group("cam_pos", o.f["pos_c_in_b"]) + group("cam_ang_pos", o.f["ang_c_to_b"]) + group("residual", [elem(k[0][3], i, 0) for i in range(6)])
        if f:
            cols += group("fid_pos", m.f["pos_f_in_l"]) + group("fid_ang", m.f["ang_f_to_l"]) + group("fid_cov", diag(T, m.f["index"], 6, isroot(p, T)))
        if c:
            cols += group("cam_cov", diag(T, o.f["index"], 6, isroot(p, T)))
        cols += group("duration", 1)
        headed(p, cols, FID_COLS(c, f))
        same_row(p, "marker", r[2][0], cols)
        p.prove("limited by the local time", eq(r[2][1], t))
    per_flags("FiducialUpdater::UpdateEKF", [("m_is_fid_extrinsic", "fid_states", "m_id", "is_extrinsic"), ("m_is_cam_extrinsic", "cam_states", "m_camera_id", "is_extrinsic")], spec_upd.P17, post_fid, "")

    def post_msckf(I_, p):
        u, e, args = h.u, h.e, h.args
        T = p.load(args[0])
        r = one(I_, p, "m_msckf_logger", any(x[0] == "kalman" for x in I_.events))
        if r is None:
            return
        t = ite(e.f["m_time_initialized"], sub(args[1], e.f["m_reference_time"]), R(0))
        o = at(T, "cam_states", u.f["m_id"], p)
        c, = flags(u, "m_is_cam_extrinsic")
        cols = [("time", t)] + group("cam_pos", o.f["pos_c_in_b"]) + group("cam_ang_pos", o.f["ang_c_to_b"])
        if c:
            cols += group("cam_cov", diag(T, o.f["index"], 6, isroot(p, T)))
        cols += [("FeatureTracks", p.load(args[2]).n)] + group("duration", 1)
        headed(p, cols, MSC_COLS(c))
        same_row(p, "feature tracks", r[2][0], cols)
        p.prove("limited by the local time", eq(r[2][1], t))
    MF = [("m_is_cam_extrinsic", "cam_states", "m_id", "is_extrinsic")]
    per_flags("MsckfUpdater::UpdateEKF", MF, spec_msckf.P21, post_msckf, "")

    def post_tri(I_, p):
        u, args = h.u, h.args
        ft = p.load(args[2])
        ev = [x for x in I_.events if x[0] == "solve"]
        p.P.record("one linear system", len(ev) == 1, "structure", time.time())
        if len(ev) != 1:
            return
        x = ev[0][3]
        z = elem(x, 2, 0)
        ok = and_(le(u.f["m_min_feat_dist"], z), le(z, u.f["m_max_feat_dist"]))
        rs = row(I_, p, "m_triangulation_logger")
        p.prove("a row exactly when the depth is within the limits", eq(B(len(rs) == 1), ok) if len(rs) <= 1 else B(False))
        if len(rs) != 1:
            return
        p0, R0, _ = spec_msckf.camera_at(u, ft.f["track"], I(0))
        X = madd(p0, mmul(R0, x))
        cols = [("time", args[0]), ("feature", ft.f["track"].at(I(0)).f["key_point"].f["class_id"])] + list(zip("xyz", comps(X)))
        headed(p, cols, TRI_COLS)
        same_row(p, "triangulation", rs[0][2][0], cols)
        p.prove("limited by the local time", eq(rs[0][2][1], args[0]))
    per_flags("MsckfUpdater::TriangulateFeature", [], spec_msckf.P19, post_tri, "")

    # the filter's own logs
    for root in (False, True):
        def setup_b(I_, root=root):
            e = SE.inv_ekf(I_, None).set("m_use_root_covariance", B(root))
            h.e, h.lv, h.n = e, I_.alloc(e), I_.sym("int", "execution_count")
            return h.lv, [h.n]

        def post_b(I_, p, root=root):
            e = h.e
            T = p.load(h.lv)
            rs = row(I_, p, "m_data_logger")
            p.prove("a row exactly when a rate is configured", eq(B(len(rs) == 1), not_(eq(e.f["m_data_log_rate"], R(0)))) if len(rs) <= 1 else B(False))
            SE.prove_same(p, "writing changes nothing: ", T, e)
            if len(rs) != 1:
                return
            b = body(e)
            cols = [("time", e.f["m_current_time"])]
            for nm, f in (("body_pos", "pos_b_in_l"), ("body_vel", "vel_b_in_l"), ("body_acc", "acc_b_in_l"), ("body_ang_pos", "ang_b_to_l"), ("body_ang_vel", "ang_vel_b_in_l"), ("body_ang_acc", "ang_acc_b_in_l")):
                cols += group(nm, b.f[f])
            cols += group("body_cov", diag(e, I(0), 18, root)) + [("state_size", e.f["m_state_size"]), ("duration_0", h.n)]
            headed(p, cols, BODY_COLS)
            same_row(p, "body", rs[0][2][0], cols)
            p.prove("limited by the filter's time", eq(rs[0][2][1], e.f["m_current_time"]))
        ctx.check("EKF::LogBodyStateIfNeeded", setup_b, post_b, contracts={**TEXT, **ROWS}, label="rows: EKF::LogBodyStateIfNeeded " + ("(root form)" if root else "(covariance form)"))

    def aug(setup, con, kw, label):
        def s(I_):
            this, args = setup(I_)
            h.lv, h.e = this, I_.load(this)
            return this, args

        def post(I_, p):
            e = h.e
            n = sum(x[0] == "augment" for x in I_.events)
            rs = row(I_, p, "m_augmentation_logger")
            p.P.record("a row for every clone", len(rs) == n, "structure", time.time())
            for r in rs:
                b = body(e)
                cols = [("time", e.f["m_current_time"])] + group("aug_pos", b.f["pos_b_in_l"]) + group("aug_ang", b.f["ang_b_to_l"])
                headed(p, cols, AUG_COLS)
                same_row(p, "clone", r[2][0], cols)
        ctx.check("EKF::AugmentStateIfNeeded", s, post, contracts=con, label="rows: " + label, side=False, **kw)
    T_ = Tap(ctx, "EKF::AugmentStateIfNeeded", aug, "")
    SE.augment_frame(T_)
    SE.augment_window(T_)
