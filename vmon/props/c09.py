"""C09: lengths equal the true arc length."""
import math
import random

from .. import gen, segs
from .. import ref_path as R

ID = "C09"
RULE = (
    "random segments of every kind (straight, nearly straight, cusped, folded and degenerate control polygons, arcs up to full "
    "turns and high eccentricity); length() against adaptive subdivision between chord and control polygon (Beziers) and "
    "piecewise Gauss integration of the speed (arcs), with default and requested errors; at least the chord; invariant under random "
    "similarity maps and reversal, scaled by |k|; paths and their subpaths against the sum. Non-trivial: a curved segment, distinct by case."
)
QUICK, THOROUGH = 72000, 700000
MIN = 2000
ASSUMPTIONS = [
    "tolerance 2e-7 of the curve's size for Beziers: the closed form for quadratics and scipy's quadrature lose that much next to cusps; 1e-9 for arcs",
]


def bezier_length(pts, eps):
    """Gravesen's estimate (2 chord + (n-1) polygon)/(n+1), adaptively subdivided; returns a value within eps or so."""
    total = 0.0
    stack = [(tuple(map(tuple, pts)), 0)]
    n = len(pts) - 1
    while stack:
        p, depth = stack.pop()
        chord = R.dist(p[0], p[-1])
        poly = sum(R.dist(a, b) for a, b in zip(p, p[1:]))
        # the estimate converges far faster than poly - chord
        if depth >= 5 and (poly - chord) ** 2 <= eps * max(poly, 1e-300) * 1e-2 or depth > 28 or poly <= eps * 1e-3:
            total += (2 * chord + (n - 1) * poly) / (n + 1)
            continue
        left, right, q = [p[0]], [p[-1]], list(p)
        while len(q) > 1:
            q = [((a[0] + b[0]) / 2, (a[1] + b[1]) / 2) for a, b in zip(q, q[1:])]
            left.append(q[0])
            right.append(q[-1])
        stack.append((tuple(left), depth + 1))
        stack.append((tuple(reversed(right)), depth + 1))
    return total


GX = [0.1488743389816312, 0.4333953941292472, 0.6794095682990244, 0.8650633666889845, 0.9739065285171717]
GW = [0.2955242247147529, 0.2692667193099963, 0.2190863625159820, 0.1494513491505806, 0.0666713443086881]


def gauss(f, a, b):
    m, h = (a + b) / 2, (b - a) / 2
    return h * sum(w * (f(m + h * x) + f(m - h * x)) for x, w in zip(GX, GW))


def arc_length(rx, ry, t0, sweep):
    """Integral of the speed of (rx cos t, ry sin t), on panels refined toward the axis crossings."""
    if sweep < 0:
        t0, sweep = t0 + sweep, -sweep
    if rx == ry:
        return rx * sweep
    f = lambda t: math.hypot(rx * math.sin(t), ry * math.cos(t))
    e = min(rx, ry) / max(rx, ry)
    t1 = t0 + sweep
    cuts = {t0, t1}
    q = math.pi / 2
    k = math.floor(t0 / q) - 1
    while k * q <= t1 + q:
        base = k * q
        w = min(e, 0.4) / 4
        cuts.add(base)
        while w < q / 2 * 1.01:
            cuts.update((base - w, base + w))
            w *= 1.6
        k += 1
    cuts = sorted(c for c in cuts if t0 <= c <= t1)
    return sum(gauss(f, a, b) for a, b in zip(cuts, cuts[1:]))


def true_length(cv):
    s = cv.s
    if s[0] == "move":
        return 0.0
    if s[0] in ("line", "close"):
        return R.dist(s[1], s[2])
    if s[0] in ("quad", "cubic"):
        return bezier_length(s[1:], 1e-10 * cv.scale)
    if s[0] == "carc":
        return arc_length(s[2], s[3], s[5], s[6])
    a = cv.arc
    if a.line:
        return R.dist(a.p0, a.p1)
    return arc_length(a.rx, a.ry, a.t1, a.d)


def similarity(r):
    a, k, f = r.uniform(-math.pi, math.pi), r.choice([1, 1, 0.5, 2, 3, r.uniform(0.1, 10)]), r.choice([1, -1])
    if r.random() < 0.3:
        a = r.choice([0, math.pi / 2, math.pi, -math.pi / 2])
    return k, [k * math.cos(a), k * math.sin(a), -f * k * math.sin(a), f * k * math.cos(a), gen.number(r, "tame"), gen.number(r, "tame")]


def cases(r):
    while True:
        if r.random() < 0.85:
            yield dict(kind="seg", spec=segs.spec(r, kinds="mlcqqqqCCCCaaAAA"), sim=similarity(r), error=r.choice([None, None, 1e-12, 1e-8, 1e-5, 1e-3]))
        else:
            yield dict(kind="path", prog=gen.program(r, n=r.choice([1, 2, 4, 8]), letters=r.choice(["LCQAZM", "QTCSLZM", "LHVZM", "LQAM"])), seed=r.randint(0, 1 << 30))


def run(c, mon):
    if c["kind"] == "path":
        return path(c, mon)
    from svgio.basic import Matrix

    cv = segs.Curve(c["spec"])
    s = segs.make(c["spec"])
    k = type(s).__name__
    before = R.read(s)
    got = float(s.length() if c["error"] is None else s.length(error=c["error"]))
    mon.check(R.read(s) == before, "length-mutates:" + k)
    mon.check(math.isfinite(got), "finite:" + k, lambda: "%r has length %r" % (s, got))
    mon.check(got >= 0, "negative:" + k, lambda: "%r has length %r" % (s, got))
    mon.feat("segment:" + c["spec"][0])
    if k == "Move":
        mon.check(got == 0, "move", lambda: "%r has length %r" % (s, got))
        mon.ev("move")
        return
    want = true_length(cv)
    t = cv.tol()
    if t is None:
        mon.ev("arc-too-ill-conditioned")
        return
    tol0 = (1e-9 if k == "Arc" else 2e-7) * cv.scale + 10 * (t - 1e-9 * cv.scale) + (1e-11 if k == "Arc" else 0)
    tol = tol0 + (c["error"] or 0) * 10
    if k in ("Line", "Close"):
        tol = 1e-12 * cv.scale
    mon.check(abs(got - want) <= tol, "length:" + k, lambda: "%r has length %r, true length %r (tolerance %g)" % (s, got, want, tol))
    mon.check(got >= R.dist(cv.start, cv.end) - tol, "chord:" + k, lambda: "%r has length %r, below its chord" % (s, got))
    again = float(s.length())
    mon.check(abs(again - want) <= tol0, "length-default:" + k, lambda: "%r has length %r, true length %r" % (s, again, want))
    rev = segs.make(c["spec"])
    rev.reverse()
    mon.check(abs(rev.length() - again) <= tol, "reversal:" + k, lambda: "%r reversed has length %r, was %r" % (s, rev.length(), again))
    f, m = c["sim"]
    img = s * Matrix(*m)
    got2 = float(img.length())
    mon.check(abs(got2 - f * again) <= f * tol + 1e-9 * max(map(abs, m)) * cv.scale, "similarity:" + k,
              lambda: "%r has length %r, its image scaled by %r has %r" % (s, again, f, got2))
    mon.ev("length:" + k)
    if k not in ("Line", "Close") and want > R.dist(cv.start, cv.end) + 1e-6 * cv.scale:
        mon.nontrivial()
        mon.ev("curved:" + k)
    mon.state(k, float("%.3g" % want))


def path(c, mon):
    from svgio.path import Path

    p = Path(gen.plain(c["prog"]))
    before = R.snapshot(p)
    got = p.length()
    want = math.fsum(s.length() for s in p)
    sc = R.seg_scale(p) * max(1, len(p))
    mon.check(abs(got - want) <= 1e-10 * sc, "path:sum", lambda: "length %r, segments sum to %r: %r" % (got, want, p))
    mon.check(p.length() == got, "path:repeat")
    mon.check(R.snapshot(p) == before, "path:length-mutates")
    mon.ev("path-length")
    ref = R.interpret(c["prog"])
    if not any(s.kind == "Arc" for s in ref):
        true = 0.0
        for s in ref:
            if s.kind != "Move":
                true += bezier_length((s.start,) + s.ctrl + (s.end,), 1e-10 * sc) if s.ctrl else R.dist(s.start, s.end)
        mon.check(abs(got - true) <= 2e-7 * sc, "path:true", lambda: "length %r, true length %r: %r" % (got, true, p))
        mon.ev("path-true")
    if want > 0:
        mon.nontrivial()
