"""C12: approximating arcs by Beziers stays on the arc."""
import math
import random
from math import pi

from .. import gen, segs
from .. import ref_path as R

ID = "C12"
RULE = (
    "random arcs (any radii, rotation, start, direction, sweeps up to a full turn, degenerate ones, images under maps and "
    "reversals) approximated by a chosen or default number of cubics and quadratics: exact ends, joints, slice boundaries on an "
    "independent evaluation of the arc, radial error against the bound of that order and slice angle, direction; random paths "
    "with arcs approximated in place with a random error: every other segment untouched, everything connected. Non-trivial: an arc "
    "of non-zero sweep; distinct by case."
)
QUICK, THOROUGH = 16000, 700000
MIN = 2500
ASSUMPTIONS = ["radial error bounds 1.5e-4 a^6 (cubic) and 2.1e-3 a^4 (quadratic) of the radius for slice angles a below a half turn"]
BOUND = {"cubic": lambda a: 1.5e-4 * a ** 6, "quad": lambda a: 2.1e-3 * a ** 4}


def cases(r):
    while True:
        if r.random() < 0.7:
            m = None
            if r.random() < 0.25:
                m = gen.matrix(r)
                if not gen.matrix_ok(m, 50):
                    m = None
            yield dict(kind="arc", spec=segs.spec(r, kinds="aAA"), m=m, rev=r.random() < 0.2, order=r.choice(["cubic", "quad"]),
                       n=r.choice([None, None, 1, 2, 3, 4, 5, 7, 12, 40]))
        else:
            prog = gen.program(r, n=r.choice([2, 3, 5, 9]), letters=r.choice(["LHVCSQTAAAZM", "LQAAM", "AAZML", "AAAT", "AAAS"]))
            yield dict(kind="path", prog=prog, order=r.choice(["cubic", "quad"]), error=r.choice([None, 0.1, 0.25, 0.05, 0.02, r.uniform(0.01, 0.3), r.uniform(0.002, 0.012)]), bare=r.random() < 0.15)


def curves(a, order, n):
    f = a.as_cubic_curves if order == "cubic" else a.as_quad_curves
    return list(f(n) if n is not None else f())


def run(c, mon):
    if c["kind"] == "path":
        return path(c, mon)
    # often the arc was approximated already, before it was changed
    a = segs.Mapped(c["spec"], c["m"], c["rev"], (lambda x: (curves(x, c["order"], c["n"]), curves(x, "cubic", None), curves(x, "quad", None))) if len(repr(c["spec"])) % 2 else None)
    arc = a.real
    before = R.read(arc)
    out = curves(arc, c["order"], c["n"])
    mon.check(R.read(arc) == before, "mutates")
    sweep = abs(float(arc.sweep))
    want = c["n"] if c["n"] is not None else int(math.ceil(sweep / (pi / 6) - 1e-9))
    judge(arc, out, c["order"], want, a, mon, c["n"] is None)


def judge(arc, out, order, n, ref, mon, slack=False):
    """Monitor: `out` are n Beziers following the arc; ref.point(t) is an independent evaluation of the arc, tol() its accuracy."""
    desc = lambda: "%s of %r in %r: %r" % (order, arc, n, out[:4])
    kind = "CubicBezier" if order == "cubic" else "QuadraticBezier"
    sweep = abs(float(arc.sweep))
    s, e = R.xy(arc.start), R.xy(arc.end)
    if sweep == 0:
        if not out:
            mon.check(R.dist(s, e) == 0, "degenerate:lost", desc)
            return
    else:
        mon.check(len(out) == n or slack and len(out) == n + 1, "count:" + order, desc)
    mon.check(all(type(b).__name__ == kind for b in out), "kind:" + order, desc)
    mon.check(R.xy(out[0].start) == s, "start:" + order, lambda: "starts %r; %s" % (out[0].start, desc()))
    mon.check(R.xy(out[-1].end) == e, "end:" + order, lambda: "ends %r; %s" % (out[-1].end, desc()))
    for b, d in zip(out, out[1:]):
        mon.check(R.xy(b.end) == R.xy(d.start), "joint:" + order, lambda: "%r then %r; %s" % (b, d, desc()))
    mon.ev("approximation:" + order)
    scale = R.seg_scale([arc])
    if sweep == 0:
        for b in out:
            for t in (0.2, 0.5, 0.7):
                mon.check(between(R.xy(b.point(t)), s, e, 1e-9 * scale), "degenerate:%s" % order, desc)
        mon.feat("degenerate")
        return
    tol = ref.tol()
    if tol is None:
        mon.ev("arc-too-ill-conditioned")
        return
    rx, ry, phi = float(arc.rx), float(arc.ry), float(arc.get_rotation())
    small = min(rx, ry)
    tol = tol + 1e-9 * scale * max(1.0, max(rx, ry) / small)
    if tol > 1e-3 * small:
        mon.ev("arc-too-ill-conditioned")
        return
    n = len(out)
    mon.nontrivial()
    for i, b in enumerate(out[1:], 1):
        q = ref.point(i / n)
        mon.check(R.near(R.xy(b.start), q, tol), "boundary:" + order, lambda: "boundary %d is %r, the arc is at %r; %s" % (i, b.start, q, desc()))
    a = sweep / n
    if a > pi * 0.999:
        return
    mon.feat("%s:%d" % (order, n))
    cx, cy = R.xy(arc.center)
    bound = BOUND[order](a) + 4 * tol / small
    angle0 = None
    last = None
    for i, b in enumerate(out):
        for t in (0.1, 0.25, 0.5, 0.75, 0.9):
            p = R.xy(b.point(t))
            x, y = p[0] - cx, p[1] - cy
            u = (x * math.cos(phi) + y * math.sin(phi)) / rx
            v = (-x * math.sin(phi) + y * math.cos(phi)) / ry
            off = abs(math.hypot(u, v) - 1)
            mon.check(off <= bound, "error:" + order, lambda: "radial error %r, bound %r, slice %r; %s" % (off, bound, a, desc()))
            # it is the right part of the arc: near the arc point of the same parameter
            q = ref.point((i + t) / n)
            far = max(rx, ry) * (0.12 * a if a < 2 else 0.3 * a) + tol
            mon.check(R.dist(p, q) <= far, "position:" + order, lambda: "piece %d at %g is %r, the arc is at %r; %s" % (i, t, p, q, desc()))
            ang = math.atan2(v, u)
            if last is not None:
                step = math.remainder(ang - last, 2 * pi) * (1 if arc.sweep > 0 else -1)
                mon.check(step > -4 * tol / small, "direction:" + order, lambda: "turns back by %r; %s" % (step, desc()))
            last = ang
    mon.state(order, n, round(a, 2), round(rx / ry, 1), arc.sweep > 0)


def between(p, s, e, tol):
    d = R.dist(s, e)
    return abs(R.dist(s, p) + R.dist(p, e) - d) <= max(tol, 1e-9 * d) * 2


class Plain:
    """Reference over a real arc's own evaluation, judged by C07."""

    def __init__(self, arc, start, end):
        self.arc = arc
        self.sc = R.seg_scale([arc])

    def point(self, t):
        return R.xy(self.arc.point(t))

    def tol(self):
        if R.dist(R.xy(self.arc.start), R.xy(self.arc.end)) < 1e-4 * max(float(self.arc.rx), float(self.arc.ry)):
            return None
        return 1e-9 * self.sc * max(self.arc.rx, self.arc.ry) / min(self.arc.rx, self.arc.ry)


def path(c, mon):
    from svgio.basic import Matrix
    from svgio.path import Path

    text = gen.plain(c["prog"])
    p, orig = Path(text), Path(text)
    if len(text) % 3 == 0:
        # approximated before, and changed in between
        for s in p:
            if type(s).__name__ == "Arc":
                curves(s, "cubic", None), curves(s, "quad", None), curves(s, c["order"], 3)
        m = Matrix("scale(2,3) rotate(30) translate(4,-5)")
        p *= m
        orig = orig * m
        mon.ev("path-approximated-before")
    if c["bare"] and not any(type(s).__name__ == "Close" for s in p):
        # a fragment: nothing before its first drawn segment
        p, orig = Path(list(p)[1:]), Path(list(orig)[1:])
    f = p.approximate_arcs_with_cubics if c["order"] == "cubic" else p.approximate_arcs_with_quads
    if c["error"] is None:
        f()
    else:
        f(c["error"])
    err = 0.1 if c["error"] is None else c["error"]
    out = list(p)
    j = 0
    desc = lambda: "%r (error %r, fragment %r) became %r" % (text, c["error"], c["bare"], p)
    for s in orig:
        k = type(s).__name__
        if k != "Arc":
            mon.check(j < len(out) and R.read(out[j]) == R.read(s), "path:other", lambda: "%r became %r; %s" % (s, out[j] if j < len(out) else None, desc()))
            mon.check(out[j].relative == s.relative and out[j].smooth == s.smooth, "path:flags", desc)
            j += 1
            continue
        sw = abs(float(s.sweep))
        if sw == 0:
            n = 0 if R.xy(s.start) == R.xy(s.end) else 1
        else:
            n = int(math.ceil(sw / (2 * pi * err)))
        part = out[j : j + n]
        j += n
        mon.check(len(part) == n, "path:arc-count", desc)
        if not part:
            mon.feat("path:empty-arc")
            continue
        judge(s, part, c["order"], n, Plain(s, s.start, s.end), mon)
        mon.ev("path-arc")
    mon.check(j == len(out), "path:count", desc)
    for a, b in zip(out, out[1:]):
        mon.check(R.xy(b.start) == R.xy(a.end), "path:connection", lambda: "%r then %r; %s" % (a, b, desc()))
    mon.ev("path")
