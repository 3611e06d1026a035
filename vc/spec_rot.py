"""Rotation conversions and small geometric helpers."""
from common import *
from spec import *
from spec_gps import comps, radd, skew3, v3


def P12(ctx):
    def setup(I_):
        v = v3(I_, "v")
        setup.v = v
        return None, [I_.alloc(v)]
    def post(I_, p):
        v = comps(setup.v)
        n2 = radd(*[mul(x, x) for x in v])
        n = fn("sqrt", n2)
        big = lt(R("0.000000001"), n)
        q = p.retv
        half = div(n, R(2))
        p.prove("scalar part: cosine of half the angle", eq(q.w, ite(big, fn("cos", half), R(1))))
        for k, c in enumerate("xyz"):
            p.prove(f"vector part {c}: sine of half the angle times the axis", eq(mul(getattr(q, c), n), mul(fn("sin", half), v[k])), [big])
            p.prove(f"vector part {c}: zero for the zero rotation", eq(getattr(q, c), R(0)), [not_(big)])
        p.prove("the result is a unit quaternion", eq(radd(*[mul(x, x) for x in q.comps()]), R(1)))
    ctx.check("RotVecToQuat", setup, post)

    def setup2(I_):
        q = I_.sym("Eigen::Quaternion<double, 0>", "q")
        setup2.v = q
        return None, [I_.alloc(q)]
    def post2(I_, p):
        q = setup2.v
        n = fn("sqrt", radd(mul(q.x, q.x), mul(q.y, q.y), mul(q.z, q.z)))
        ang = mul(R(2), fn("atan2", n, ite(lt(q.w, R(0)), neg(q.w), q.w)))
        sg = ite(lt(q.w, R(0)), R(-1), R(1))
        for k, c in enumerate("xyz"):
            p.prove(f"component {c}: angle times axis, the short way round", eq(mul(elem(p.retv, k, 0), n), mul(mul(sg, ang), getattr(q, c))), [lt(R("0.000001"), n)])
    ctx.check("QuatToRotVec", setup2, post2)

    def post3(I_, p):
        r, pt, y = [div(x, R(2)) for x in comps(setup.v)]
        def Q(ax, h):
            return Quat(fn("cos", h), *[fn("sin", h) if i == ax else R(0) for i in range(3)])
        e = qmul(qmul(Q(2, y), Q(1, pt)), Q(0, r))
        for c in "wxyz":
            p.prove(f"{c}: yaw, then pitch, then roll", eq(getattr(p.retv, c), getattr(e, c)))
        p.prove("the result is a unit quaternion", eq(radd(*[mul(x, x) for x in p.retv.comps()]), R(1)))
    ctx.check("EigVecToQuat", setup, post3)

    def setup4(I_):
        s = I_.sym("std::vector<double>", "s")
        setup4.v = s
        return None, [I_.alloc(s)]
    def post4(I_, p):
        s = setup4.v
        q = p.retv
        four = eq(s.n, I(4))
        a = [s.at(I(k)) for k in range(4)]
        n = fn("sqrt", radd(*[mul(x, x) for x in a]))
        for k, c in enumerate("wxyz"):
            p.prove(f"{c}: normalised entry (w first)", eq(mul(getattr(q, c), n), a[k]), [four, lt(R(0), n)])
            p.prove(f"{c}: identity for any other length", eq(getattr(q, c), R(1 if c == "w" else 0)), [not_(four)])
    ctx.check("StdToEigQuat", setup4, post4)
    def setup5(I_):
        s = I_.sym("std::vector<double>", "s")
        setup5.v = s
        I_.assume(eq(s.n, I(3)))
        return None, [I_.alloc(s)]
    def post5(I_, p):
        s = setup5.v
        p.prove("length", eq(p.retv.r, I(3)))
        for k in range(3):
            p.prove(f"entry {k}", eq(elem(p.retv, k, 0), s.at(I(k))))
    ctx.check("StdToEigVec", setup5, post5)

    def post6(I_, p):
        v = setup.v
        y = v3(I_, "y")
        p.prove_mat("the matrix of the cross product", p.retv, skew3(v))
        p.prove_mat("applied to a vector it is the cross product", mmul(p.retv, y), lib.cross(v, y))
    ctx.check("SkewSymmetric", setup, post6)

    def post7(I_, p):
        q = setup2.v
        th = quat_rotvec(I_, q)
        n = fn("sqrt", radd(*[mul(x, x) for x in comps(th)]))
        S = skew3(th)
        big = lt(R("0.000000001"), n)
        c1 = div(sub(R(1), fn("cos", n)), mul(n, n))
        c2 = div(sub(n, fn("sin", n)), mul(mul(n, n), n))
        E_ = madd(msub(mid(3), mscale(c1, S)), mscale(c2, mmul(S, S)))
        p.prove_mat("right Jacobian of the rotation group at the rotation vector", p.retv, norm_small(E_), [big])
        p.prove_mat("it keeps the rotation vector itself", mmul(p.retv, th), th)
    ctx.check("QuaternionJacobian", setup2, post7, contracts=ROT)

    def post8(I_, p):
        x = setup8.v
        p.prove("sign", eq(p.retv, ite(lt(R(0), x), R(1), ite(lt(x, R(0)), R(-1), R(0)))))
    def setup8(I_):
        x = var("x", "R")
        setup8.v = x
        return None, [x]
    ctx.check("sign", setup8, post8)
