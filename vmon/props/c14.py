"""C14: matrix operations obey affine-map algebra."""
import itertools
import math
import random

from .. import affine as A
from .. import gen

ID = "C14"
RULE = (
    "histories of random matrix operations (every post_/pre_ method with and without centre, catenation, products with matrices and "
    "transform text on either side, inverses, component assignment, reset) on a random matrix; after each step the six components, "
    "the determinant, images of random points and vectors, and the operands of non-in-place operators are compared with 3x3 affine "
    "algebra. Constructors, copies and item access likewise. Non-trivial: a history with a non-identity matrix; distinct by case."
)
QUICK, THOROUGH = 120000, 1500000
MIN = 4000
ASSUMPTIONS = ["rounding tolerance 1e-12 of the magnitudes summed, inverses only of matrices with condition number below 1e4"]

NAMES = ["scale", "scale_x", "scale_y", "translate", "translate_x", "translate_y", "rotate", "skew", "skew_x", "skew_y", "cat"]


def angle(r):
    a = r.choice([r.uniform(-7, 7), math.radians(r.choice([30, 45, 60, 90, 180, 270, -90, 360])), 0, r.uniform(-0.01, 0.01)])
    return a


def safe_skew(r):
    return r.choice([r.uniform(-1.4, 1.4), math.radians(r.choice([10, 30, 45, -60])), 0])


def factor(r):
    return r.choice([2, 0.5, -1, 3, 1, -2, r.uniform(0.1, 5), -r.uniform(0.1, 5)])


def cases(r):
    while True:
        ops = []
        for _ in range(r.choice([1, 2, 3, 5, 8])):
            k = r.random()
            if k < 0.6:
                n = r.choice(NAMES)
                pos = r.choice(["post", "pre"])
                ctr = r.choice([None, None, [gen.number(r, "tame"), gen.number(r, "tame")], [gen.number(r, "tame"), 0], [0, gen.number(r, "tame")]])
                if n == "scale":
                    args = [factor(r), factor(r)] if r.random() < 0.6 else [factor(r)]
                elif n in ("scale_x", "scale_y"):
                    args = [factor(r)]
                elif n == "translate":
                    args = gen.point(r, "tame")
                elif n in ("translate_x", "translate_y"):
                    args = [gen.number(r, "tame")]
                elif n == "rotate":
                    args = [angle(r)]
                elif n == "skew":
                    args = [safe_skew(r), safe_skew(r)]
                elif n in ("skew_x", "skew_y"):
                    args = [safe_skew(r)]
                else:
                    args = gen.matrix(r)
                ops.append(["method", pos, n, args, ctr if n not in ("translate", "translate_x", "translate_y", "cat") else None, r.random() < 0.5, r.choice(["full", "omit", "none", "zero"])])
            elif k < 0.9:
                ops.append(["op", r.choice(["mul", "matmul", "imul", "imatmul", "text", "itext", "rtext", "rmul", "invert", "inverse", "self", "vector", "copy"]), gen.matrix(r), r.randint(0, 3)])
            elif k < 0.97:
                ops.append(["set", r.randint(0, 5), gen.number(r, "tame")])
            else:
                ops.append(["reset"])
        m0 = gen.matrix(r)
        if r.random() < 0.04:
            # singular
            m0[2:4] = r.choice([[m0[0], m0[1]], [2 * m0[0], 2 * m0[1]], [0, 0]])
            if r.random() < 0.5:
                m0[1], m0[3] = m0[0], m0[2]
        yield dict(m=m0, ops=ops, pts=[gen.point(r, "mixed") for _ in range(2)], form=r.choice(["comps", "list", "tuple", "matrix", "copy", "text", "method"]), angle=r.random() < 0.5)


def text_of(m, how):
    f = lambda v: repr(float(v))
    if how == 1 and m[1] == 0 and m[2] == 0 and m[4] == 0 and m[5] == 0:
        return "scale(%s %s)" % (f(m[0]), f(m[3]))
    if how == 2 and tuple(m[:4]) == (1, 0, 0, 1):
        return "translate(%s,%s)" % (f(m[4]), f(m[5]))
    return "matrix(%s)" % ", ".join(map(f, m))


def observe(m, ref, tol, mon, where, pts, desc):
    from svgio.basic import Matrix, Point

    got = A.of(m)
    mon.check(A.close(got, ref, tol), where, lambda: "%r, expected %r; %s" % (got, ref, desc()))
    mon.ev("matrix")
    mon.check((float(m.a), float(m.b), float(m.c), float(m.d), float(m.e), float(m.f)) == got, "attributes", lambda: "items %r of %r" % (got, m))
    mon.check(len(m) == 6, "len")
    mon.check(tuple(itertools.islice((float(v) for v in m), 12)) == got, "iteration", lambda: "%r of %r" % (list(itertools.islice(m, 12)), got))
    s = sum(map(abs, got)) or 1.0
    mon.check(abs(float(m.determinant) - A.det(got)) <= 1e-13 * s * s, "determinant", lambda: "%r of %r" % (m.determinant, got))
    mon.check((m.value_trans_x(), m.value_trans_y(), m.value_scale_x(), m.value_scale_y()) == (got[4], got[5], got[0], got[3]), "value-accessors", lambda: repr(m))
    mon.check((m.value_skew_x(), m.value_skew_y()) == (got[1], got[2]), "value-skews", lambda: "%r, %r of %r" % (m.value_skew_x(), m.value_skew_y(), m))
    mon.check("".join(str(m).split()) == "".join(("[%3f,%3f,%3f,%3f,%s,%s]" % (got[0], got[2], got[1], got[3], m.e, m.f)).split()), "str", lambda: "%s of %r" % (m, got))
    mon.check(bool(m.is_identity()) == (got == A.IDENT), "is-identity", lambda: repr(got))
    v = m.vector()
    mon.check(A.of(v) == got[:4] + (0.0, 0.0), "vector", lambda: "%r of %r" % (v, got))
    for p in pts:
        want = A.apply(got, p)
        t = 1e-12 * sum(A.apply(A.mag(got), [abs(p[0]), abs(p[1])]))
        near = lambda q: abs(q[0] - want[0]) <= t and abs(q[1] - want[1]) <= t
        for name, f in (
            ("point_in_matrix_space", lambda: m.point_in_matrix_space(tuple(p))),
            ("point_in_matrix_space:Point", lambda: m.point_in_matrix_space(Point(p))),
            ("Point*Matrix", lambda: Point(p) * m),
            ("transform_point", lambda: m.transform_point(list(p))),
        ):
            q = f()
            mon.check(near(q), name, lambda: "%r of %r by %r, expected %r" % (q, p, got, want))
        q = Point(p)
        rr = m.transform_point(q)
        mon.check(near(q) and near(rr), "transform_point:in-place", lambda: "%r of %r by %r, expected %r" % (q, p, got, want))
        w2 = (got[0] * p[0] + got[2] * p[1], got[1] * p[0] + got[3] * p[1])
        q = list(p)
        m.transform_vector(q)
        mon.check(abs(q[0] - w2[0]) <= t and abs(q[1] - w2[1]) <= t, "transform_vector", lambda: "%r of %r by %r, expected %r" % (q, p, got, w2))
        mon.ev("point")
        if gen.matrix_ok(got, 1e3):
            back = m.point_in_inverse_space(want)
            inv = A.inverse(got)
            ti = 1e-11 * (1 + sum(map(abs, inv))) * (1 + abs(want[0]) + abs(want[1]) + s)
            mon.check(abs(back[0] - p[0]) <= ti and abs(back[1] - p[1]) <= ti, "point_in_inverse_space", lambda: "%r back from %r by %r, expected %r" % (back, want, got, p))
    mon.check(A.of(m) == got, "observation-mutates", lambda: repr(m))
    return got


def run(c, mon):
    import copy as cp

    from svgio.basic import Angle, Matrix

    m0 = [float(v) for v in c["m"]]
    if c["form"] == "comps":
        m = Matrix(*m0)
    elif c["form"] == "list":
        m = Matrix(list(m0))
    elif c["form"] == "tuple":
        m = Matrix(tuple(m0))
    elif c["form"] == "matrix":
        src = Matrix(*m0)
        m = Matrix(src)
        m2 = Matrix(src)
        src.a, src.e = 77.0, 78.0
        mon.check(A.of(m) == A.of(m2), "copy-shares")
    elif c["form"] == "copy":
        src = Matrix(*m0)
        m = cp.copy(src)
        src.post_scale(5)
    elif c["form"] == "text":
        m = Matrix(text_of(m0, 0))
    else:
        # the class methods
        k, a = factor(random.Random(repr(c["m"]))), m0[0]
        for name, args, want in (
            ("scale", (k,), A.scale(k, k)), ("scale", (k, a), A.scale(k, a)), ("scale_x", (k,), A.scale(k, 1)), ("scale_y", (k,), A.scale(1, k)),
            ("translate", (k, a), A.translate(k, a)), ("translate_x", (k,), A.translate(k, 0)), ("translate_y", (k,), A.translate(0, k)),
            ("rotate", (a,), A.rotate(a)), ("identity", (), A.IDENT),
            ("skew", (a / 10, 0.3), A.skew(a / 10, 0.3)), ("skew_x", (0.4,), A.skew(0.4, 0)), ("skew_y", (0.4,), A.skew(0, 0.4)),
        ):
            got = A.of(getattr(Matrix, name)(*args))
            mon.check(A.close(got, want, [1e-14 * (1 + abs(x)) for x in want]), "class:" + name, lambda: "Matrix.%s%r is %r, expected %r" % (name, args, got, want))
            mon.ev("class-method")
        for name in ("scale", "scale_x", "scale_y", "translate", "translate_x", "translate_y", "skew", "skew_x", "skew_y"):
            mon.check(A.of(Matrix.rotate()) == A.IDENT and A.of(getattr(Matrix, name)()) == A.IDENT, "class:default:" + name, lambda: repr(getattr(Matrix, name)()))
            keyed = dict(scale=("sy", A.scale(1, k)), translate=("ty", A.translate(0, k)), skew=("angle_b", A.skew(0, 0.4))).get(name)
            if keyed:
                # only the second argument, by name
                v = 0.4 if name == "skew" else k
                got = A.of(getattr(Matrix, name)(**{keyed[0]: v}))
                mon.check(A.close(got, keyed[1], [1e-14 * (1 + abs(x)) for x in keyed[1]]), "keyed:" + name, lambda: "%r" % (got,))
            for pos in ("post_", "pre_"):
                if keyed:
                    d = Matrix()
                    getattr(d, pos + name)(**{keyed[0]: v})
                    mon.check(A.close(A.of(d), keyed[1], [1e-14 * (1 + abs(x)) for x in keyed[1]]), "keyed:" + pos + name, lambda: "%r" % (A.of(d),))
                d = Matrix(*m0)
                getattr(d, pos + name)()
                mon.check(A.close(A.of(d), m0, [1e-14 * max(map(abs, m0)) for _ in m0]), "default:" + pos + name, lambda: "%r became %r" % (m0, d))
        mon.check(A.of(Matrix()) == A.IDENT and Matrix().is_identity(), "default")
        m = Matrix(*m0)
    pts = [tuple(map(float, p)) for p in c["pts"]]
    cur = observe(m, tuple(m0), 0.0, mon, "construct:" + c["form"], pts, lambda: "built from %r" % (m0,))
    for op in c["ops"]:
        if max(map(abs, cur)) > 1e9:
            mon.ev("too-large")
            break
        m, cur = step(m, cur, op, c, mon, pts)
    if cur != A.IDENT:
        mon.nontrivial()
    # comparison
    same = Matrix(*cur)
    mon.check(m == same and not (m != same), "eq", lambda: "%r and %r" % (m, same))
    mon.check((m == text_of(cur, 0)) is True and not (m == None), "eq-text", lambda: repr(cur))  # noqa: E711
    for i in range(6):
        other = Matrix(*cur)
        other[i] = cur[i] + (1e-6 if i % 2 else -1e-9 if i % 3 else -0.5) * max(1, abs(cur[i]))
        mon.check(not (m == other) and m != other, "eq-distinguishes", lambda: "%r equals %r" % (m, other))
    mon.state([float("%.3g" % v) for v in cur])


def step(m, cur, op, c, mon, pts):
    from svgio.basic import Angle, Matrix

    desc = lambda: "%r on %r" % (op, cur)
    if op[0] == "reset":
        m.reset()
        return m, observe(m, A.IDENT, 0.0, mon, "reset", pts, desc)
    if op[0] == "set":
        m[op[1]] = op[2]
        want = list(cur)
        want[op[1]] = float(op[2])
        return m, observe(m, tuple(want), 0.0, mon, "setitem", pts, desc)
    if op[0] == "method":
        _, pos, n, args, ctr, asobj, style = op
        x, y = ctr or (0.0, 0.0)
        if n.startswith("scale"):
            sx, sy = {"scale": (args[0], args[-1]), "scale_x": (args[0], 1), "scale_y": (1, args[0])}[n]
            k = A.scale(sx, sy)
        elif n.startswith("translate"):
            k = A.translate(*{"translate": (args[0], args[-1]), "translate_x": (args[0], 0), "translate_y": (0, args[0])}[n])
        elif n == "rotate":
            k = A.rotate(args[0])
        elif n.startswith("skew"):
            k = A.skew(*{"skew": (args[0], args[-1]), "skew_x": (args[0], 0), "skew_y": (0, args[0])}[n])
        else:
            k = tuple(map(float, args))
        f = getattr(m, pos + "_" + n)
        if n == "cat":
            f(Matrix(*args)) if asobj else f(*args)
        else:
            if asobj and n[:4] in ("rota", "skew"):
                args = [Angle(a) for a in args]
            given = {} if not ctr else dict(x=x, y=y)
            if ctr and style == "omit":
                given = {n2: v for n2, v in given.items() if v != 0}
            elif ctr and style == "none":
                given = {n2: (None if v == 0 and not n.startswith(("scale_", "skew_")) else v) for n2, v in given.items()}
            elif not ctr and style == "zero" and not n.startswith("translate"):
                given = dict(x=0.0, y=0)
            if len(given) == 2 and not asobj and not (n == "scale" and len(args) == 1):
                f(*args, given["x"], given["y"])
            elif n == "scale" and len(args) == 1 and asobj and given:
                f(args[0], None, **given)
            else:
                f(*args, **given)
        parts = A.about(k, x, y) if ctr else [k]
        order = [cur] + parts if pos == "post" else parts + [cur]
        want, tol = A.product(*order), tuple(1e-12 * v for v in A.bound(*order))
        mon.feat("%s_%s%s" % (pos, n, ":centre" if ctr else ""))
        return m, observe(m, want, tol, mon, "%s_%s" % (pos, n), pts, desc)
    kind, other, how = op[1], tuple(map(float, op[2])), op[3]
    mon.feat("op:" + kind)
    if kind in ("invert", "inverse"):
        if not gen.matrix_ok(cur, 1e4):
            mon.ev("skipped:ill-conditioned")
            return m, cur
        want = A.inverse(cur)
        d = abs(A.det(cur))
        s = sum(map(abs, cur))
        tol = 1e-12 * (1 + s) ** 3 / d * (1 + 1 / d)
        if kind == "inverse":
            r = m.inverse()
            mon.check(r is m, "inverse-returns-self")
            n = m
        else:
            n = ~m
            mon.check(n is not m and A.of(m) == cur, "invert-operand", desc)
        got = observe(n, want, tol, mon, kind, pts, desc)
        return n, got
    if kind == "vector":
        return m, cur
    if kind == "copy":
        import copy as cp

        n = cp.copy(m)
        mon.check(n is not m and A.of(n) == cur, "copy", desc)
        m.post_scale(3, 4)
        mon.check(A.of(n) == cur, "copy-shares", desc)
        return n, cur
    o = Matrix(*other)
    text = text_of(other, how)
    inplace = False
    if kind == "mul":
        n = m * o
    elif kind == "matmul":
        n = m @ o
    elif kind == "imul":
        n, inplace = m, True
        n *= o
    elif kind == "imatmul":
        n, inplace = m, True
        n @= o
    elif kind == "text":
        n = m * text
    elif kind == "itext":
        n, inplace = m, True
        n *= text
    elif kind == "rtext":
        n = text * m
    elif kind == "rmul":
        n = o * m
    elif kind == "self":
        o, other = m, cur
        n = m * m
    first, second = (other, cur) if kind in ("rtext", "rmul") else (cur, other)
    want, tol = A.product(first, second), tuple(1e-12 * v for v in A.bound(first, second))
    if inplace:
        mon.check(n is m, "inplace-identity:" + kind, desc)
    else:
        mon.check(n is not m and n is not o and A.of(m) == cur, "operand:" + kind, lambda: "changed to %r; %s" % (m, desc()))
    mon.check(A.of(o) == other, "other-operand:" + kind, lambda: "changed to %r; %s" % (o, desc()))
    return n, observe(n, want, tol, mon, "product:" + kind, pts, desc)
