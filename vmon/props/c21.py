"""C21: points obey plane vector arithmetic; convex hulls are convex and cover."""
import cmath
import math
from fractions import Fraction

from .. import affine as A
from .. import gen

ID = "C21"
RULE = (
    "random points built from pairs, text, complex numbers, lists and points; every operator and method with the other operand in each "
    "accepted form, results compared with complex/vector arithmetic and operands with snapshots; convex hulls of 0 to 60 points on coarse grids, lines, "
    "circles and random clouds with duplicates, collinear runs and ties, checked in exact rational arithmetic. Non-trivial: a point history or a hull of "
    "three or more distinct points; distinct by case."
)
QUICK, THOROUGH = 120000, 3000000
MIN = 8000
ASSUMPTIONS = ["hulls are checked exactly for coordinates whose cross products are exact in double arithmetic, to rounding otherwise"]
FORMS = ["point", "tuple", "list", "complex"]


def coords(r):
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 25, 60])
    k = r.random()
    if k < 0.35:
        w = r.choice([1, 2, 3, 6])
        ps = [[r.randint(-w, w), r.randint(-w, w)] for _ in range(n)]
    elif k < 0.5:
        a, b, p = r.randint(-3, 3), r.randint(-3, 3), [r.randint(-9, 9), r.randint(-9, 9)]
        ps = [[p[0] + a * t, p[1] + b * t] for t in (r.randint(-5, 5) for _ in range(n))]
        for _ in range(r.choice([0, 0, 1, 2])):
            ps.append([r.randint(-9, 9), r.randint(-9, 9)])
    elif k < 0.7:
        ps = [[r.randint(-400, 400) / 4, r.randint(-400, 400) / 4] for _ in range(n)]
    elif k < 0.8:
        ps = [[round(50 * math.cos(t)), round(50 * math.sin(t))] for t in (r.uniform(0, 7) for _ in range(n))]
    else:
        ps = [gen.point(r, "tame") for _ in range(n)]
    for _ in range(r.choice([0, 0, 1, 3])):
        if ps:
            ps.append(list(r.choice(ps)))
    if ps and r.random() < 0.15:
        # close neighbours, exactly representable
        for _ in range(r.choice([1, 4])):
            p, e = r.choice(ps), 2.0 ** -r.choice([4, 12, 20])
            ps.append([p[0] + r.randint(-1, 1) * e, p[1] + r.randint(-1, 1) * e])
        if r.random() < 0.3:
            ps = ps[-4:]
    if r.random() < 0.2 and ps:
        x = r.choice(ps)[0]
        ps += [[x, r.randint(-9, 9)] for _ in range(3)]
    if r.random() < 0.3:
        ps.sort(key=lambda p: (p[0], p[1]), reverse=r.random() < 0.5)
    return ps


OPS = ["+", "-", "r+", "r-", "*", "r*", "+=", "-=", "*=", "scale", "scale=", "rscale", "matrix", "matrix=", "mtext", "mtransform", "distance", "angle", "polar", "polar_to", "towards", "move_towards", "reflect", "conjugate", "orient", "set", "copy", "eq", "abs", "addnum", "pow", "argz"]


def cases(r):
    while True:
        if r.random() < 0.35:
            yield dict(kind="hull", pts=coords(r), form=r.choice(["tuple", "list", "point"]))
            continue
        ops = []
        for _ in range(r.choice([1, 2, 3, 5])):
            ops.append([r.choice(OPS), r.choice(FORMS), gen.point(r, "tame"), gen.point(r, "tame"), r.choice([2, -1, 0.5, 0, gen.number(r, "tame")]), gen.matrix(r)])
        yield dict(kind="point", p=gen.point(r, "mixed"), how=r.choice(["pair", "text", "text", "complex", "tuple", "list", "point", "dict"]), ops=ops, sep=r.choice([",", " ", ", ", " , ", "\n"]), fancy=r.random() < 0.7)


def as_form(p, form):
    from svgio.basic import Point

    if form == "point":
        return Point(*p)
    if form == "complex":
        return complex(*p)
    return tuple(p) if form == "tuple" else list(p)


def val(o):
    if isinstance(o, complex):
        return o
    return complex(o[0], o[1])


def elsewhere(p, o, o1):
    """Measures the point while it is somewhere else, and puts it back."""
    x, y = p.x, p.y
    p.x, p.y = x + 3.0, y - 4.0
    p.distance_to(o1), p.angle_to(o1)
    try:
        p.distance_to(o), p.angle_to(o)
    except TypeError:
        pass  # another point's form is judged by the caller
    p.x, p.y = x, y


def run(c, mon):
    (hull if c["kind"] == "hull" else history)(c, mon)


def hull(c, mon):
    from svgio.basic import Point

    src = [[float(v) for v in p] for p in c["pts"]]
    pts = [as_form(p, c["form"]) for p in src]
    out = list(Point.convex_hull(pts))
    mon.check([list(map(float, (p[0], p[1]))) for p in pts] == src, "hull-input-changed")
    h = [(float(p[0]), float(p[1])) for p in out]
    inputs = set(map(tuple, src))
    desc = lambda: "hull of %r is %r" % (src, h)
    mon.check(len(set(h)) == len(h), "hull-repeats", desc)
    mon.check(set(h) <= inputs, "hull-foreign", desc)
    mon.check((len(h) > 0) == (len(inputs) > 0), "hull-empty", desc)
    if not inputs:
        return
    exact = all(v * 16 == int(v * 16) and abs(v) < 1e4 for p in inputs for v in p)
    big = max(abs(v) for p in inputs for v in p) + 1e-9
    tol = 0 if exact else 1e-13 * big * big
    F = Fraction

    def cross(o, a, b):
        return (F(a[0]) - F(o[0])) * (F(b[1]) - F(o[1])) - (F(a[1]) - F(o[1])) * (F(b[0]) - F(o[0]))

    lo, hi = min(inputs), max(inputs)
    if len(inputs) == 1:
        mon.check(h == [lo], "hull-single", desc)
        return
    if len(h) < 3:
        mon.check(sorted(h) == [lo, hi] if len(h) == 2 else False, "hull-degenerate", desc)
        mon.check(all(abs(cross(lo, hi, p)) <= tol for p in inputs), "hull-misses", desc)
        mon.ev("hull:degenerate")
        return
    n = len(h)
    turns = [cross(h[i], h[(i + 1) % n], h[(i + 2) % n]) for i in range(n)]
    area = sum(F(a[0]) * F(b[1]) - F(a[1]) * F(b[0]) for a, b in zip(h, h[1:] + h[:1]))
    sign = 1 if area > 0 else -1
    mon.check(all(sign * t > -tol for t in turns) and (not exact or all(sign * t > 0 for t in turns)), "hull-not-convex", desc)
    for p in inputs:
        for i in range(n):
            mon.check(sign * cross(h[i], h[(i + 1) % n], p) >= -tol, "hull-misses", lambda: "%r is outside; %s" % (p, desc()))
    # once around: the exterior angles sum to one turn
    ang = 0.0
    for i in range(n):
        d1 = complex(h[(i + 1) % n][0] - h[i][0], h[(i + 1) % n][1] - h[i][1])
        d2 = complex(h[(i + 2) % n][0] - h[(i + 1) % n][0], h[(i + 2) % n][1] - h[(i + 1) % n][1])
        ang += cmath.phase(d2 / d1)
    mon.check(abs(abs(ang) - 2 * math.pi) < 1e-6, "hull-winds", desc)
    mon.ev("hull:%s" % ("exact" if exact else "rounded"))
    mon.nontrivial()
    mon.state(n, len(inputs))


def history(c, mon):
    import copy

    from svgio.basic import Matrix, Point

    x, y = map(float, c["p"])
    how = c["how"]
    if how == "text":
        import random

        r = random.Random(repr(c["p"]))
        fancy = 1 if c["fancy"] else 0
        a, b = gen.spell_number(r, c["p"][0], fancy), gen.spell_number(r, c["p"][1], fancy)
        t = a + ("" if b[0] == "-" and fancy and r.random() < 0.5 else c["sep"]) + b
        p = Point(t)
    elif how == "pair":
        p = Point(x, y)
    elif how == "point":
        src = Point(x, y)
        p = Point(src)
        src.x = 9e9
    elif how == "dict":
        p = Point(x=x, y=y)
    else:
        p = Point(as_form((x, y), how))
    z = complex(x, y)
    mon.feat("from:" + how)

    def same(o, w, key, scale, desc):
        t = 1e-13 * (abs(w) + scale)
        mon.check(isinstance(o, Point) and abs(val(o) - w) <= t, key, lambda: "%s gave %r, expected %r" % (desc(), o, w))

    same(p, z, "construct", 0, lambda: "Point from %s %r" % (how, c["p"]))
    for op, form, o1, o2, k, m in c["ops"]:
        if abs(z) > 1e9:
            break
        views(p, z, mon)
        o1, o2 = tuple(map(float, o1)), tuple(map(float, o2))
        o, w = as_form(o1, form), complex(*o1)
        snap = val(o)
        desc = lambda: "Point%r %s %s%r %r" % ((z.real, z.imag), op, form, o1, k)
        mon.feat("op:%s:%s" % (op, form))
        s = abs(z) + abs(w)
        inplace, res, want, sc = False, None, None, s
        if op == "+":
            res, want = p + o, z + w
        elif op == "-":
            res, want = p - o, z - w
        elif op == "r+":
            res, want = o + p, z + w
        elif op == "r-":
            res, want = o - p, w - z
        elif op == "*":
            res, want, sc = p * o, z * w, abs(z) * abs(w)
        elif op == "r*":
            res, want, sc = o * p, z * w, abs(z) * abs(w)
        elif op in ("+=", "-=", "*="):
            inplace, res = True, p
            if op == "+=":
                res += o
                want = z + w
            elif op == "-=":
                res -= o
                want = z - w
            else:
                res *= o
                want, sc = z * w, abs(z) * abs(w)
        elif op == "scale":
            res, want, sc = p * k, z * k, abs(z * k)
        elif op == "rscale":
            res, want, sc = k * p, z * k, abs(z * k)
        elif op == "scale=":
            inplace, res = True, p
            res *= k
            want, sc = z * k, abs(z * k)
        elif op == "addnum":
            res, want, sc = (p + k if len(c["ops"]) % 2 else k + p), z + k, abs(z) + abs(k)
        elif op.startswith("m") and op != "move_towards":
            q = A.apply(m, (z.real, z.imag))
            want = complex(*q)
            sc = sum(A.apply(A.mag(m), (abs(z.real), abs(z.imag))))
            if op == "mtext":
                text = "matrix(%s)" % " ".join(repr(float(v)) for v in m)
                if len(c["ops"]) % 2:
                    res = p * text
                else:
                    inplace, res = True, p
                    res *= text
            elif op == "matrix":
                res = p * Matrix(*m)
            elif op == "matrix=":
                inplace, res = True, p
                res *= Matrix(*m)
            else:
                inplace, res = True, p.matrix_transform(Matrix(*m))
        elif op == "pow":
            n = [2, 3, 0.5, 1, 0, -1, 1.5][len(repr(o1)) % 7]
            if z == 0 or abs(z) > 1e4 or abs(z) < 1e-4:
                continue
            if n != int(n) and z.real < 0 and abs(z.imag) <= 1e-9 * abs(z):
                continue    # on the branch cut: which root is meant hangs on the sign of a zero
            res, want, sc = p ** n, z ** n, 100 * abs(z ** n)
        elif op == "argz":
            if abs(z) > 1e-9:
                d = (float(p.argz()) - cmath.phase(z)) % (2 * math.pi)
                mon.check(min(d, 2 * math.pi - d) <= 1e-12, "argz", lambda: "%s gave %r, expected %r" % (desc(), p.argz(), cmath.phase(z)))
            continue
        elif op == "distance":
            elsewhere(p, o, o1)
            d = abs(z - w)
            for got in (p.distance_to(o) if form != "x" else 0, Point.distance(p, o1), Point.distance(o1, p)):
                mon.check(abs(got - d) <= 1e-13 * (s + d), "distance", lambda: "%s gave %r, expected %r" % (desc(), got, d))
            continue
        elif op == "angle":
            elsewhere(p, o, o1)
            if abs(z - w) > 1e-9 * s and abs(z - w) > 1e-9:
                for got, u in ((p.angle_to(o), w - z), (Point.angle(p, o1), w - z), (Point.angle(o1, p), z - w)):
                    d = (float(got) - cmath.phase(u)) % (2 * math.pi)
                    mon.check(min(d, 2 * math.pi - d) <= 1e-12 + 1e-13 * s / abs(u), "angle", lambda: "%s gave %r, expected %r" % (desc(), got, cmath.phase(u)))
            continue
        elif op in ("polar", "polar_to"):
            a, d = o1[0] % 7, k
            want = z + cmath.rect(1, a) * d
            sc = abs(z) + abs(d)
            if op == "polar":
                res = Point.polar(p, a, d) if form != "tuple" else Point.polar((z.real, z.imag), a, d)
            else:
                inplace, res = True, p.polar_to(a, d)
        elif op == "towards":
            res, want, sc = Point.towards(p, o1, k), z + (w - z) * k, s * (1 + abs(k))
        elif op == "move_towards":
            inplace, res = True, p
            if k > 1:
                k = 1
                p.move_towards(o)
            else:
                p.move_towards(o, k)
            want, sc = z + (w - z) * k, s * (1 + abs(k))
        elif op == "reflect":
            res, want, sc = p.reflected_across(as_form(o1, "point" if form == "complex" else form)), 2 * w - z, 2 * s
        elif op == "conjugate":
            res, want = p.conjugate(), z.conjugate()
        elif op == "orient":
            ps = [(z.real, z.imag), o1, o2]
            F = Fraction
            cr = (F(ps[1][0]) - F(ps[0][0])) * (F(ps[2][1]) - F(ps[1][1])) - (F(ps[1][1]) - F(ps[0][1])) * (F(ps[2][0]) - F(ps[1][0]))
            got = Point.orientation(p, o1, as_form(o2, "point"))
            if abs(cr) > 1e-12 * (s + abs(complex(*o2))) ** 2:
                mon.check(got == (2 if cr > 0 else 1), "orientation", lambda: "%r of %r" % (got, ps))
            q = (o1[0] * 2, o1[1] * 2)
            mon.check(Point.orientation((0, 0), o1, q) == 0 and Point.orientation(o1, o1, q) == 0, "orientation-collinear", lambda: repr(o1))
            continue
        elif op == "set":
            if len(c["ops"]) % 2:
                p[0], p[1] = o1
            else:
                p.x, p.y = o1
            inplace, res, want = True, p, w
        elif op == "copy":
            q = copy.copy(p)
            mon.check(q is not p and q == p and hash(q) == hash(p), "copy", desc)
            q += (1, 2)
            mon.check(val(p) == z, "copy-shares", desc)
            continue
        elif op == "eq":
            far = abs(z - w) > 1e-9
            mon.check(bool(p == o) != far or not far and abs(z - w) > 1e-13, "eq", desc)
            mon.check(bool(p != o) == (not bool(p == o)), "ne", desc)
            for f in FORMS:
                mon.check(p == as_form((z.real, z.imag), f) and not p != as_form((z.real, z.imag), f), "eq-form", lambda: f + " " + desc())
            e = [1e-9, 1e-7, 0.001, 1][len(repr(o1)) % 4] * max(1, abs(z))
            near = Point(z.real + e, z.imag) if len(c["ops"]) % 2 else Point(z.real, z.imag - e)
            mon.check(not p == near and p != near and not near == p, "eq-near", lambda: "%r and %r; %s" % (p, near, desc()))
            mon.check(not (p == None) and p != None, "eq-none")  # noqa: E711
            continue
        else:
            mon.check(abs(abs(p) - abs(z)) <= 1e-13 * abs(z), "abs", desc)
            continue
        same(res, want, op, sc, desc)
        mon.check(val(o) == snap, "other-operand:" + op, lambda: "%s changed it to %r" % (desc(), o))
        if inplace:
            mon.check(res is p, "identity:" + op, desc)
            z = val(p)
        else:
            mon.check(res is not p and res is not o and val(p) == z, "operand:" + op, lambda: "%s changed it to %r" % (desc(), p))
            keep = p
            p = res
            z2 = val(p)
            p += (1, 1)
            mon.check(val(keep) == z and val(o) == snap, "result-shares:" + op, desc)
            p -= (1, 1)
            p.x, p.y = z2.real, z2.imag
            z = z2
        mon.ev("result")
    views(p, z, mon)
    mon.nontrivial()
    mon.state([o[0] + o[1] for o in c["ops"]])


def views(p, z, mon):
    mon.check((p.x, p.y, p[0], p[1], p.real, p.imag, complex(p), len(p), tuple(p)) == (z.real, z.imag, z.real, z.imag, z.real, z.imag, z, 2, (z.real, z.imag)), "views", lambda: "%r, expected %r" % (p, z))
    try:
        p[2]
        mon.fail("index", repr(p))
    except IndexError:
        pass
