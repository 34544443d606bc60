"""C15: transform lists parse to the product of their functions."""
import math

from .. import affine as A
from .. import gen, units

ID = "C15"
RULE = (
    "transform lists of 0 to 7 functions over all eleven function names and their argument counts, in random letter case, spacing, "
    "separators, number spellings, angle units, and length units or percentages with the rendering context that resolves them "
    "(given when the matrix is made, or afterwards to render() where the symbolic form allows it); the six components and images of "
    "points are compared with the product of the functions' matrices. Non-trivial: at least two functions; distinct by text."
)
QUICK, THOROUGH = 240000, 3000000
MIN = 8000
ASSUMPTIONS = [
    "lengths are compared to the precision of the library's unit constants (1pt to 3e-5, 1mm to 1e-6)",
    "deferred resolution (render after parsing) is required only where horizontal and vertical lengths stay separate: one length-bearing translation, preceded by scalings only",
]
COUNTS = {
    "matrix": [6], "translate": [1, 2, 2, 2], "translatex": [1], "translatey": [1], "scale": [1, 2, 2, 4], "scalex": [1], "scaley": [1],
    "rotate": [1, 1, 3, 3], "skew": [1, 2, 2, 4], "skewx": [1, 1, 3], "skewy": [1, 1, 3],
}
CAMEL = {"translatex": "translateX", "translatey": "translateY", "scalex": "scaleX", "scaley": "scaleY", "skewx": "skewX", "skewy": "skewY"}
CTX_UNITS = ["in", "cm", "mm", "%", "em", "ex", "vw", "vh", "vmin", "vmax"]


def a_length(r, ctx):
    n = gen.number(r, "tame")
    if ctx is None or r.random() < 0.5:
        return [n, r.choice(["", "", "", "px", "pt", "pc"])]
    return [n, r.choice(CTX_UNITS)]


def an_angle(r, steep=True):
    u = r.choice(["", "", "", "deg", "grad", "rad", "turn", "%"])
    if r.random() < 0.3:
        turns = r.choice([0, 0.125, -0.125, 1 / 12, 0.0625] + ([0.25, 0.5, 0.75, -0.25, 1, 1.25, -2] if steep else []))
    else:
        turns = r.uniform(-2, 2) if steep else r.choice([-1, 1]) * r.uniform(0.0001, 0.22)
    per = {"": 360, "deg": 360, "grad": 400, "rad": 2 * math.pi, "turn": 1, "%": 100}[u]
    v = turns * per
    return [float(int(v)) if v == int(v) else v, u]


def function(r, ctx, names):
    name = r.choice(names)
    n = r.choice(COUNTS[name])
    if name == "matrix":
        return [name, [[v, ""] for v in gen.matrix(r)]]
    if name.startswith("translate"):
        return [name, [a_length(r, ctx) for _ in range(n)]]
    if name.startswith("scale"):
        fs = [[r.choice([2, -1, 0.5, 3, -0.25, r.uniform(0.05, 8), gen.positive(r, "tame")]), ""] for _ in range(min(n, 2))]
        if names and r.random() < 0.05:
            fs[-1][0] = 0
        return [name, fs + [[gen.number(r, "tame"), ""] for _ in range(n - 2)]]
    if name == "rotate":
        return [name, [an_angle(r)] + ([a_length(r, ctx), a_length(r, ctx)] if n == 3 else [])]
    centre = [a_length(r, ctx), a_length(r, ctx)] if n > 2 else []
    return [name, [an_angle(r, False) for _ in range(n - len(centre))] + centre]


def spell_param(r, p, fancy):
    n, u = p
    t = gen.spell_number(r, n, fancy)
    if u and r.random() < 0.15 * fancy:
        u = r.choice([u.upper(), u.capitalize()])
    return t + u


def spell(r, fs, fancy):
    out = ""
    for name, params in fs:
        k = r.random()
        word = CAMEL.get(name, name)
        if k < 0.15 * fancy:
            word = name.upper()
        elif k < 0.3 * fancy:
            word = name
        elif k < 0.35 * fancy:
            word = "".join(r.choice([ch.upper(), ch]) for ch in name)
        if out:
            out += r.choice([" ", " ", ",", ", ", "", "\n", "\t ", " , "]) if fancy else " "
        ws = lambda: r.choice(["", "", " ", "  ", "\n", "\t"]) if fancy else ""
        text = ws()
        prev = None
        for p in params:
            t = spell_param(r, p, fancy)
            if prev is not None:
                if fancy and t[0] in "-+" and r.random() < 0.4:
                    pass
                elif fancy:
                    text += r.choice([" ", ",", ", ", " ,", " , ", "\n", "\t"])
                else:
                    text += ", "
            text += t
            prev = t
        out += word + (r.choice(["", "", " "]) if fancy else "") + "(" + text + ws() + ")"
    if fancy and r.random() < 0.2:
        out = r.choice([" ", "\n", "  "]) + out + r.choice([" ", "\n"])
    return out


def context(r):
    w, h = gen.positive(r, "tame"), gen.positive(r, "tame")
    ctx = dict(ppi=r.choice([96, 72, 300, 96.0, gen.positive(r, "tame")]), font_size=gen.positive(r, "tame"), font_height=gen.positive(r, "tame"), vw=gen.positive(r, "tame"), vh=gen.positive(r, "tame"))
    if r.random() < 0.75:
        ctx.update(width=w, height=h)
    elif r.random() < 0.6:
        # one axis only, the other falls back to relative_length
        ctx[r.choice(["width", "height"])] = w
    if "width" in ctx and r.random() < 0.05:
        ctx["width"] = 0
    if r.random() < 0.4 or "width" not in ctx or "height" not in ctx:
        ctx.update(relative_length=gen.positive(r, "tame"))
    return ctx


def cases(r):
    every = list(COUNTS)
    while True:
        ctx = context(r) if r.random() < 0.5 else None
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7]) if r.random() < 0.98 else r.choice([9, 12, 18])
        names = r.choice([every, every, ["translate", "scale", "rotate"], [r.choice(every), r.choice(every)]])
        fs = [function(r, ctx, names) for _ in range(n)]
        fancy = r.choice([0, 1, 1, 1])
        text = spell(r, fs, fancy)
        deferred = False
        if ctx and r.random() < 0.25:
            deferred = True
            name = r.choice(["translate", "translatex", "translatey"])
            params = [[gen.number(r, "tame"), r.choice(CTX_UNITS)] for _ in range(2 if name == "translate" else 1)]
            before = [function(r, None, ["scale", "scalex", "scaley"]) for _ in range(r.choice([0, 0, 1, 2]))]
            for f in before:
                f[1] = [[v or 4, u] for v, u in f[1][:2]]
            after = []
            for _ in range(r.choice([0, 1, 2])):
                f = function(r, None, ["scale", "rotate", "skewx", "skewy"])
                f[1] = f[1][:1]
                after.append(f)
            fs = before + [[name, params]] + after
            text = spell(r, fs, fancy)
        yield dict(fs=fs, text=text, ctx=ctx, deferred=deferred, pts=[gen.point(r, "tame")])


def reference(fs, ctx):
    """(matrix, tolerance six-tuple): functions leftmost applied last."""
    ctx = ctx or {}
    ms, dev = [], []

    def px(p, axis):
        v, t = units.pixels(p[0], p[1], ctx, axis)
        dev.append(t)
        return v

    for name, ps in fs:
        if name == "matrix":
            m = [tuple(float(p[0]) for p in ps)]
        elif name == "translate":
            m = [A.translate(px(ps[0], "x"), px(ps[1], "y") if len(ps) > 1 else 0.0)]
        elif name == "translatex":
            m = [A.translate(px(ps[0], "x"), 0.0)]
        elif name == "translatey":
            m = [A.translate(0.0, px(ps[0], "y"))]
        elif name == "scale":
            m = [A.scale(ps[0][0], ps[:2][-1][0])]
            if len(ps) == 4:
                m = A.about(m[0], ps[2][0], ps[3][0])
        elif name == "scalex":
            m = [A.scale(ps[0][0], 1.0)]
        elif name == "scaley":
            m = [A.scale(1.0, ps[0][0])]
        else:
            an = [p[0] * units.ANGLE[p[1]] for p in ps if p[1] in units.ANGLE][: 1 if name != "skew" else 2]
            if name == "rotate":
                m = [A.rotate(an[0])]
                if len(ps) == 3:
                    m = A.about(m[0], px(ps[1], "x"), px(ps[2], "y"))
            elif name == "skew":
                m = [A.skew(an[0], an[1] if len(an) > 1 else 0.0)]
            elif name == "skewx":
                m = [A.skew(an[0], 0.0)]
            else:
                m = [A.skew(0.0, an[0])]
            if name != "rotate" and len(ps) > 2:
                m = A.about(m[0], px(ps[-2], "x"), px(ps[-1], "y"))
        ms[:0] = m  # rightmost first
    want = A.product(*ms)
    bound = A.bound(*ms)
    lin = 1.0
    for m in ms:
        lin *= max(1.0, abs(m[0]) + abs(m[2]), abs(m[1]) + abs(m[3]))
    extra = 2 * sum(dev) * lin
    return want, tuple(1e-11 * v + (extra if i > 3 else 0) + 1e-300 for i, v in enumerate(bound))


def kwargs(ctx):
    k = {x: v for x, v in ctx.items() if x not in ("vw", "vh")}
    k["viewbox"] = "0 0 %r %r" % (ctx["vw"], ctx["vh"])
    return k


def run(c, mon):
    from svgio.basic import Length, Matrix, Point

    fs, text, ctx = c["fs"], c["text"], c["ctx"]
    want, tol = reference(fs, ctx)
    mon.feat(*["%s/%d" % (n, len(p)) for n, p in fs])
    mon.feat(*["unit:" + (p[1] or "none") for n, ps in fs for p in ps])
    if len(fs) > 1:
        mon.nontrivial(text)
    desc = lambda m: "Matrix(%r%s) is %r, expected %r" % (text, "" if ctx is None else ", **%r" % kwargs(ctx), m, want)
    if c["deferred"]:
        m = Matrix(text)
        m.render(**kwargs(ctx))
        mon.ev("deferred")
    else:
        m = Matrix(text, **(kwargs(ctx) if ctx else {}))
    for v in (m.e, m.f):
        mon.check(not isinstance(v, Length), "unresolved", lambda: desc(m))
    got = A.of(m)
    mon.check(A.close(got, want, tol), "components", lambda: desc(m))
    mon.ev("functions", len(fs))
    m.render(**(kwargs(ctx) if ctx else {}))
    mon.check(A.of(m) == got, "render-again", lambda: desc(m))
    for p in c["pts"]:
        w = A.apply(want, p)
        t = tol[0] * abs(p[0]) + tol[2] * abs(p[1]) + tol[4], tol[1] * abs(p[0]) + tol[3] * abs(p[1]) + tol[5]
        ps = [m.point_in_matrix_space(p), Point(p) * m]
        if ctx is None:
            ps.append(Point(p) * text)
        for q in ps:
            mon.check(abs(q[0] - w[0]) <= 4 * t[0] and abs(q[1] - w[1]) <= 4 * t[1], "point", lambda: "%r by %r is %r, expected %r" % (p, text, q, w))
            mon.ev("point")
    if ctx is None and not any(ps for n, ps in fs if any(p[1] for p in ps)):
        # rendering context changes nothing when no length needs it
        k = Matrix(text, ppi=123, width=7, height=9, relative_length=3, font_size=5, font_height=2, viewbox="0 0 3 4")
        mon.check(A.of(k) == got, "context-free", lambda: desc(k))
    if fs and ctx is None:
        # a list is the product of its parts
        i = len(fs) // 2
        mon.check(Matrix(text).is_identity() == (got == A.IDENT), "identity", lambda: desc(m))
        a, b = reference(fs[:i], None)[0], reference(fs[i:], None)[0]
        mon.check(A.close(A.product(b, a), got, tuple(2 * t for t in tol)), "split", lambda: desc(m))
    mon.state([float("%.3g" % v) for v in got])


def corpus():
    for t in ("", " ", "\n"):
        yield dict(fs=[], text=t, ctx=None, deferred=False, pts=[[3, 4]])
