"""Random single segments as JSON specs, their real objects and their independent geometry."""
import math
from math import cos, pi, sin

from . import gen
from . import ref_path as R


def spec(r, mode=None, kinds="lcqqCCCaaAA", full=1.0):
    """kinds: l line, c close, q quadratic, C cubic, a SVG arc, A centre arc, m move. full: largest |sweep| of A in turns."""
    mode = mode or gen.pick_mode(r)
    k = r.choice(kinds)
    p = lambda: gen.point(r, mode)
    if k == "m":
        return ["move", p(), p()]
    if k in "lc":
        a = p()
        x = r.random()
        b = a if x < 0.06 else [a[0], gen.number(r, mode)] if x < 0.15 else [gen.number(r, mode), a[1]] if x < 0.25 else p()
        return ["line" if k == "l" else "close", a, b]
    if k == "q":
        a, c, b = p(), p(), p()
        x = r.random()
        if x < 0.05:
            c = list(a)
        elif x < 0.10:
            c = list(b)
        elif x < 0.14:
            b = list(a)
        elif x < 0.2:
            c = [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2]  # straight, no quadratic part
        elif x < 0.3:
            t = r.choice([0.25, 0.75, -0.5, 1.5, 2, r.uniform(-2, 3)])
            c = [a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t]
        elif x < 0.34:
            c = [(a[0] + b[0]) / 2, gen.number(r, mode)]
        elif x < 0.37:
            a, c, b = a, list(a), list(a)
        return ["quad", a, c, b]
    if k == "C":
        a, c1, c2, b = p(), p(), p(), p()
        x = r.random()
        if x < 0.05:
            c1 = list(a)
        elif x < 0.10:
            c2 = list(b)
        elif x < 0.14:
            c1, c2 = list(a), list(b)
        elif x < 0.17:
            b = list(a)
        elif x < 0.20:
            c2 = list(c1)
        elif x < 0.24:
            # elevated quadratic: cubic coefficient vanishes
            q = p()
            c1 = [a[0] + (q[0] - a[0]) * 2 / 3, a[1] + (q[1] - a[1]) * 2 / 3]
            c2 = [b[0] + (q[0] - b[0]) * 2 / 3, b[1] + (q[1] - b[1]) * 2 / 3]
        elif x < 0.28:
            c1 = [a[0] + (b[0] - a[0]) / 3, a[1] + (b[1] - a[1]) / 3]
            c2 = [a[0] + (b[0] - a[0]) * 2 / 3, a[1] + (b[1] - a[1]) * 2 / 3]
        elif x < 0.34:
            u, v = r.uniform(-1, 2), r.uniform(-1, 2)
            c1 = [a[0] + (b[0] - a[0]) * u, a[1] + (b[1] - a[1]) * u]
            c2 = [a[0] + (b[0] - a[0]) * v, a[1] + (b[1] - a[1]) * v]
        elif x < 0.40:
            c1[0], c2[0], b[0] = r.choice([(a[0], a[0], a[0]), (b[0], a[0], b[0]), (c2[0], c2[0], b[0])])
        elif x < 0.46:
            # vanishing cubic coefficient in one axis only
            i = r.randint(0, 1)
            b[i] = a[i] - 3 * c1[i] + 3 * c2[i]
        elif x < 0.49:
            c1, c2 = [b[0], a[1]], [a[0], b[1]]  # often a cusp or loop
        elif x < 0.51:
            c1, c2, b = list(a), list(a), list(a)
        return ["cubic", a, c1, c2, b]
    if k == "a":
        g = gen.arc_args(r, mode)
        a = p()
        if r.random() < 0.03:
            g[5:] = a
        if r.random() < 0.1:
            # exactly a half turn
            g[0] = g[1] = math.hypot(g[5] - a[0], g[6] - a[1]) / 2 or 1
        elif r.random() < 0.1:
            # almost a half turn
            g[0] = g[1] = math.hypot(g[5] - a[0], g[6] - a[1]) / 2 * (1 + 10 ** -r.uniform(0.3, 4)) or 1
        return ["arc", a] + g[:5] + [g[5:]]
    # centre arc
    c = p()
    rx, ry = gen.positive(r, "tame"), gen.positive(r, "tame")
    x = r.random()
    if x < 0.3:
        ry = rx
    elif x < 0.4:
        ry = rx * (1 + r.choice([1, -1]) * 10 ** -r.uniform(1, 10))  # almost a circle
    ry = min(max(ry, rx / 200), rx * 200)
    rot = r.choice([0, 0, pi / 2, pi, -pi / 2, pi / 4, r.uniform(-pi, pi), r.uniform(-pi, pi)])
    if r.random() < 0.1:
        rot += r.choice([1, -1]) * 10 ** -r.uniform(1, 8)  # almost along the axes
    t0 = r.choice([0, pi / 2, pi, -pi / 2, r.uniform(-pi, pi), r.uniform(-pi, pi), r.uniform(-pi, pi)])
    sw = r.choice([pi / 2, pi, -pi / 2, -pi, r.uniform(0.01, 2 * pi), r.uniform(0.01, 2 * pi), -r.uniform(0.01, 2 * pi), 2 * pi, -2 * pi])
    if r.random() < 0.05:
        sw = r.uniform(-0.01, 0.01) or 0.001
    lim = full * 2 * pi
    sw = max(-lim, min(lim, sw))
    return ["carc", c, rx, ry, rot, t0, sw]


def carc_point(s, t):
    _, c, rx, ry, rot, t0, sw = s
    a = t0 + sw * t
    x, y = rx * cos(a), ry * sin(a)
    return (c[0] + x * cos(rot) - y * sin(rot), c[1] + x * sin(rot) + y * cos(rot))


def prime(x):
    """Takes every measurement of a segment once, so that one kept beyond the next change would show."""
    x.point(0.3)
    x.npoint([0.2, 0.7])
    for f in ("bbox", "length", "rx", "ry", "radius", "get_rotation", "get_start_t", "get_end_t", "get_start_angle", "get_end_angle"):
        f = getattr(x, f, None)
        if callable(f):
            try:
                f()
            except (ValueError, ArithmeticError, TypeError):
                pass  # not claimed for this segment
    str(x)
    return x


def make(s):
    """The segment of a spec; some curves get their points one by one, after having been measured with others."""
    x = make_direct(s)
    names = {"line": ["start", "end"], "close": ["start", "end"], "quad": ["start", "control", "end"], "cubic": ["start", "control1", "control2", "end"]}.get(s[0])
    how = sum(map(ord, repr(s))) % 6
    if names and how in (0, 1, 3):
        given = [getattr(x, n) for n in names]
        one = len(repr(s)) % len(names)
        for i, n in enumerate(names):
            if i == one if how == 3 else how == 1 or n.startswith("control"):
                setattr(x, n, given[i] + (7.0, -3.0 * i))
        prime(x)
        for n, p in zip(names, given):
            setattr(x, n, p)
    elif how == 2:
        prime(x)
    return x


def make_direct(s):
    from svgio.basic import Point
    from svgio.path import Arc, Close, CubicBezier, Line, Move, QuadraticBezier

    k = s[0]
    if k == "move":
        return Move(tuple(s[1]), tuple(s[2]))
    if k == "line":
        return Line(tuple(s[1]), tuple(s[2]))
    if k == "close":
        return Close(tuple(s[1]), tuple(s[2]))
    if k == "quad":
        return QuadraticBezier(tuple(s[1]), tuple(s[2]), tuple(s[3]))
    if k == "cubic":
        return CubicBezier(tuple(s[1]), tuple(s[2]), tuple(s[3]), tuple(s[4]))
    if k == "arc":
        return Arc(tuple(s[1]), s[2], s[3], s[4], s[5], s[6], tuple(s[7]))
    _, c, rx, ry, rot, t0, sw = s
    st, e = carc_point(s, 0), carc_point(s, 1)
    prx = (c[0] + rx * cos(rot), c[1] + rx * sin(rot))
    pry = (c[0] - ry * sin(rot), c[1] + ry * cos(rot))
    return Arc(Point(st), Point(e), Point(c), Point(prx), Point(pry), sw)


class Curve:
    """Independent geometry of a spec: point(t), start, end, scale, arc (R.Arc) when it is one."""

    def __init__(self, s):
        self.s = s
        self.k = s[0]
        self.arc = None
        if self.k == "arc":
            self.arc = R.Arc(tuple(s[1]), s[2], s[3], s[4], s[5], s[6], tuple(s[7]))
            self.start, self.end = tuple(s[1]), tuple(s[7])
        elif self.k == "carc":
            self.start, self.end = carc_point(s, 0), carc_point(s, 1)
        elif self.k == "move":
            self.start, self.end = tuple(s[1]), tuple(s[2])
        else:
            self.start, self.end = tuple(s[1]), tuple(s[-1])
        self.scale = R.seg_scale([make(s)])

    def point(self, t):
        if self.k == "move":
            return self.end
        if self.k == "carc":
            return carc_point(self.s, t)
        if self.arc is not None:
            return self.arc.point(t)
        return R.bezier(self.s[1:], t)

    @property
    def curved(self):
        return self.k == "carc" or (self.arc is not None and not self.arc.line)

    def tol(self, base=1e-9):
        """Point tolerance, allowing for the conditioning of arcs. None when the arc is too ill conditioned to judge."""
        t = base * self.scale
        if self.k == "carc":
            return t * max(1.0, max(self.s[2], self.s[3]) / min(self.s[2], self.s[3]))
        if self.arc is not None and not self.arc.line:
            a = self.arc
            if R.dist(a.p0, a.p1) < 1e-5 * max(a.rx, a.ry):
                return None
            big = max(a.rx, a.ry) / min(a.rx, a.ry)
            t *= big * max(1.0, 1e-3 * self.scale / R.dist(a.p0, a.p1))
            t += 4 * R.arc_sensitivity(a.p0, a.rx / a.scaled, a.ry / a.scaled, self.s[4], self.s[5], self.s[6], a.p1, rel=1e-14)
            off = abs(a.d) % pi
            t += max(a.rx, a.ry) * min(5e-8, 1e-14 / max(min(off, pi - off), 1e-12))
            if t > 0.01 * min(a.rx, a.ry):
                return None
        return t


class Mapped:
    """A spec seen through an optional matrix and an optional reversal: real segment and reference curve."""

    def __init__(self, s, matrix=None, rev=False, before=None):
        from svgio.basic import Matrix

        self.s, self.m, self.rev = s, matrix, rev
        self.base = Curve(s)
        self.k = s[0]
        self.real = make(s)
        if before is not None:
            before(self.real)
        if rev:
            self.real.reverse()
        if matrix is not None:
            self.real *= Matrix(*matrix)
        self.start, self.end = self.point(0), self.point(1)
        self.scale = max(R.seg_scale([self.real]), self.base.scale * (max(map(abs, matrix)) if matrix else 1))

    def point(self, t):
        p = self.base.point(1 - t if self.rev else t) if self.k != "move" else (self.base.start if self.rev else self.base.end)
        return apply(self.m, p) if self.m else p

    def tol(self, base=1e-9):
        t = self.base.tol(base)
        if t is None:
            return None
        if self.m:
            n = max(1.0, math.hypot(*self.m[:4]))
            det = abs(self.m[0] * self.m[3] - self.m[1] * self.m[2])
            t = t * n
            if self.base.curved:
                t *= max(1.0, n * n / det)
            t += base * self.scale
        return t


def apply(m, p):
    return (m[0] * p[0] + m[2] * p[1] + m[4], m[1] * p[0] + m[3] * p[1] + m[5])


def extreme(f, n=256):
    """(min, max) of a smooth function over [0,1] by sampling and golden section refinement around each sampled optimum."""
    vs = [f(i / n) for i in range(n + 1)]
    out = []
    g = (math.sqrt(5) - 1) / 2
    for sign in (1, -1):
        ws = [sign * v for v in vs]
        least = min(ws)
        span = max(ws) - least
        best = least
        for i in range(n + 1):
            near = ws[max(0, i - 1) : i + 2]
            if ws[i] > min(near) or ws[i] - least > 0.01 * span:
                continue
            a, b = max(0, i - 1) / n, min(n, i + 1) / n
            c, d = b - g * (b - a), a + g * (b - a)
            fc, fd = sign * f(c), sign * f(d)
            for _ in range(40):
                if fc < fd:
                    b, d, fd = d, c, fc
                    c = b - g * (b - a)
                    fc = sign * f(c)
                else:
                    a, c, fc = c, d, fd
                    d = a + g * (b - a)
                    fd = sign * f(d)
            best = min(best, fc, fd)
        out.append(sign * best)
    return out[0], out[1]
