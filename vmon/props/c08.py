"""C08: bounding boxes contain the curve and are tight."""
import random

from .. import gen, segs
from .. import ref_path as R

ID = "C08"
RULE = (
    "random segments of every kind (extremes inside, at and outside the parameter range, vanishing leading coefficients, "
    "straight and degenerate control polygons, arcs of any rotation, start and sweep up to a full turn), also reversed and "
    "seen through affine maps; bbox() is compared with the extremes of an independent evaluation of the curve (dense sampling "
    "plus refinement) and with the segment's own points. Subpaths of random paths likewise. Non-trivial: a curve whose box "
    "has a side not touched by its end points, or a subpath with a drawn segment; distinct by case."
)
QUICK, THOROUGH = 16000, 420000
MIN = 1500
ASSUMPTIONS = ["sampled extremes of the reference curve are within 1e-9 of the true ones (golden-section refined)"]


def cases(r):
    while True:
        if r.random() < 0.8:
            m = None
            if r.random() < 0.3:
                m = gen.matrix(r)
                if not gen.matrix_ok(m, 100):
                    m = None
            yield dict(kind="seg", spec=segs.spec(r, kinds="lcqqqCCCCCaaaAAAA"), m=m, rev=r.random() < 0.2, seed=r.randint(0, 1 << 30))
        else:
            yield dict(kind="path", prog=gen.program(r, n=r.choice([2, 4, 6, 10]), letters=r.choice(["LCQAZM", "QTCSLZM", "LHVZM", "LQAM"])), seed=r.randint(0, 1 << 30))


def ranges(point, tol, n=256):
    xs = segs.extreme(lambda t: point(t)[0], n)
    ys = segs.extreme(lambda t: point(t)[1], n)
    return xs[0], ys[0], xs[1], ys[1]


def run(c, mon):
    if c["kind"] == "path":
        return path(c, mon)
    a = segs.Mapped(c["spec"], c["m"], c["rev"])
    s = a.real
    k = type(s).__name__
    mon.feat("segment:" + c["spec"][0] + (":mapped" if c["m"] else "") + (":reversed" if c["rev"] else ""))
    before = R.read(s)
    box = s.bbox()
    mon.check(R.read(s) == before, "bbox-mutates:" + k)
    mon.check(len(box) == 4, "shape:" + k, lambda: "%r has box %r" % (s, box))
    box = tuple(float(v) for v in box)
    mon.check(box[0] <= box[2] and box[1] <= box[3], "order:" + k, lambda: "%r has box %r" % (s, box))
    tol = a.tol()
    if tol is None:
        mon.ev("arc-too-ill-conditioned")
        return
    # own points are contained, closely
    near = 1e-9 * a.scale if k != "Arc" else tol
    n = 64
    pts = [(float(p[0]), float(p[1])) for p in s.npoint([i / n for i in range(n + 1)])]
    for i, p in enumerate(pts):
        mon.check(
            box[0] - near <= p[0] <= box[2] + near and box[1] - near <= p[1] <= box[3] + near, "contains:" + k,
            lambda: "%r at %g is %r, outside box %r" % (s, i / n, p, box),
        )
    want = ranges(a.point, tol)
    for side, g, w in zip(("xmin", "ymin", "xmax", "ymax"), box, want):
        mon.check(abs(g - w) <= max(tol, near), "side:%s:%s" % (k, "loose" if (g < w) == side.endswith("min") else "cut"),
                  lambda: "%r box %r, %s should be %r (tolerance %g)" % (s, box, side, w, tol))
        mon.ev("side:" + k)
    e = (min(a.start[0], a.end[0]), min(a.start[1], a.end[1]), max(a.start[0], a.end[0]), max(a.start[1], a.end[1]))
    inner = sum(abs(x - y) > 10 * tol for x, y in zip(e, want))
    if inner:
        mon.nontrivial()
    mon.feat("inner-sides:%s:%d" % (k, inner))
    mon.state(k, inner, [round(x) for x in want])


def path(c, mon):
    from svgio.path import Path

    p = Path(gen.plain(c["prog"]))
    before = R.snapshot(p)
    for sub in p.as_subpaths():
        ss = list(sub)
        drawn = [s for s in ss if type(s).__name__ != "Move"]
        box = sub.bbox()
        mon.ev("subpath-box")
        if not drawn:
            mon.check(box is None, "subpath:empty", lambda: "%r has box %r" % (ss, box))
            continue
        bs = [s.bbox() for s in drawn]
        want = (min(b[0] for b in bs), min(b[1] for b in bs), max(b[2] for b in bs), max(b[3] for b in bs))
        tol = 1e-12 * R.seg_scale(ss)
        mon.check(box is not None and len(box) == 4 and all(abs(x - y) <= tol for x, y in zip(box, want)), "subpath:union", lambda: "%r has box %r, its segments %r" % (ss, box, want))
        near = 1e-8 * R.seg_scale(ss)
        for s in drawn:
            if type(s).__name__ == "Arc" and max(s.rx, s.ry) > 1e3 * min(s.rx, s.ry):
                mon.ev("arc-too-ill-conditioned")
                continue
            for q in s.npoint([0, 0.17, 0.33, 0.5, 0.71, 0.9, 1]):
                mon.check(box[0] - near <= q[0] <= box[2] + near and box[1] - near <= q[1] <= box[3] + near, "subpath:contains", lambda: "%r of %r outside %r" % (list(q), s, box))
        mon.nontrivial(ss)
    mon.check(R.snapshot(p) == before, "subpath:bbox-mutates")
