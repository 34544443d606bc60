"""C07: point evaluation follows the curve definitions."""
import random

from .. import gen, segs
from .. import ref_path as R

ID = "C07"
RULE = (
    "random segments of every kind (special control patterns, degenerate and full-turn arcs) evaluated at 0, 1 and random "
    "positions, as point() and as npoint() over lists, tuples and arrays in any order, against de Casteljau / elliptical "
    "references; random paths evaluated by point() and npoint() against the length-fraction rule, including exact segment "
    "boundaries. Non-trivial: a segment or path of non-zero size; distinct by case."
)
QUICK, THOROUGH = 120000, 1200000
MIN = 3000
ASSUMPTIONS = ["segment lengths are judged by C09; here they only locate the segment"]


def cases(r):
    while True:
        k = r.random()
        if k < 0.65:
            yield dict(kind="seg", spec=segs.spec(r, kinds="mlcqqCCCaaAA"), ts=[r.random() for _ in range(3)] + [r.choice([1e-9, 1 - 1e-9, 0.5, 0.25, 1 / 3, 1e-5, 1 - 1e-5, 1 - 1e-4, 1e-4])],
                       form=r.choice(["list", "tuple", "array"]), seed=r.randint(0, 1 << 30))
        elif k < 0.9:
            yield dict(kind="path", prog=gen.program(r, letters=r.choice(["LHVZM", "LHVZM", "LQCAZM", "QTCSLZM", "LQAM", "M"]), n=r.choice([1, 2, 3, 5, 8])),
                       ts=[r.random() for _ in range(5)] + [r.choice([1e-12, 1 - 1e-12, 1 - 2.0 ** -53, 5e-324, 0.5, 0.25, 0.125, 1 / 3])], seed=r.randint(0, 1 << 30))
        else:
            # lines of one length: segment boundaries are exact fractions
            n = r.choice([2, 4, 8])
            size = r.choice([1, 2, 0.5, 3, 5])
            prog = [["M", [0, 0]]]
            for i in range(n):
                if i and r.random() < 0.5:
                    prog.append(["M", [r.randint(-50, 50) * 10, 7]])
                    if r.random() < 0.2:
                        prog.append(["l", [0, 0]])
                prog.append(r.choice([["h", [size]], ["v", [-size]], ["l", [0, size]]]))
            yield dict(kind="path", prog=prog, ts=[r.randint(0, n) / n for _ in range(6)] + [i / n for i in range(n + 1)], seed=r.randint(0, 1 << 30))


def shaped(ts, form):
    if form == "tuple":
        return tuple(ts)
    if form == "array":
        import numpy as np

        return np.array(ts)
    return list(ts)


def many(r):
    return [r.random() for _ in range(r.choice([20, 60, 200]))] if r.random() < 0.015 else []


def run(c, mon):
    r = random.Random(c["seed"])
    if c["kind"] == "seg":
        return segment(c, r, mon)
    from svgio.path import Path

    p = Path(gen.plain(c["prog"]))
    ss = list(p)
    if len(ss) > 1 and r.random() < 0.2 and type(ss[1]).__name__ not in ("Move", "Close"):
        p = Path(*ss[1:])  # begins with what is drawn
        ss = list(p)
        mon.feat("no-move")
    before = R.snapshot(p)
    lens = [s.length() for s in ss]
    total = sum(lens)
    sc = R.seg_scale(ss)
    tol = 1e-7 * sc
    ts = list(c["ts"]) + [0, 1, 0.0, 1.0] + many(r)
    r.shuffle(ts)
    pts = {}
    exact = False
    for t in ts:
        q = R.xy(p.point(t))
        mon.ev("path-point")
        if t in pts:
            mon.check(q == pts[t], "path:repeat", lambda: "point(%r) changed from %r to %r" % (t, pts[t], q))
        pts[t] = q
        if t == 0:
            mon.check(R.near(q, R.xy(ss[0].end if type(ss[0]).__name__ == "Move" else ss[0].start), 1e-12 * sc), "path:first", lambda: "point(0) %r of %r" % (q, ss))
            continue
        if t == 1:
            mon.check(R.near(q, R.xy(ss[-1].end), 1e-12 * sc), "path:last", lambda: "point(1) %r of %r" % (q, ss))
            continue
        if total == 0:
            mon.check(any(R.near(q, R.xy(s.end), tol) for s in ss), "path:zero-length", lambda: "%r of %r" % (q, ss))
            continue
        acc, ok, cands = 0.0, False, []
        for s, l in zip(ss, lens):
            lo, hi = acc / total, (acc + l) / total
            acc += l
            if lo - 1e-11 <= t <= hi + 1e-11:
                if l == 0:
                    cands.append(R.xy(s.end))
                else:
                    u = min(1.0, max(0.0, (t - lo) / (hi - lo)))
                    # position uncertainty of rounding inside a short segment
                    cands.append(R.xy(s.point(u)))
                    if (hi - lo) < 1e-6:
                        cands += [R.xy(s.point(min(1.0, max(0.0, u + d)))) for d in (-0.3, -0.1, 0.1, 0.3)]
                        tol = max(tol, l)
        ok = any(R.near(q, w, tol) for w in cands)
        mon.check(ok, "path:point", lambda: "point(%r) is %r, expected one of %r: %r lengths %r" % (t, q, cands, ss, lens))
        if len(cands) > 1:
            mon.ev("boundary")
    form = r.choice(["list", "tuple", "array"])
    order = ts + r.sample(ts, 3)
    r.shuffle(order)
    got = p.npoint(shaped(order, form))
    mon.check(len(got) == len(order), "path:npoint:count")
    for t, q in zip(order, got):
        mon.check(R.near((float(q[0]), float(q[1])), pts[t], tol), "path:npoint", lambda: "npoint at %r of %r is %r, point gives %r: %r" % (t, order, list(q), pts[t], ss))
        mon.ev("path-npoint")
    mon.check(R.snapshot(p) == before, "path:mutates")
    if total > 0:
        mon.nontrivial()
    mon.state(len(ss), tuple(type(s).__name__[0] for s in ss[:6]))


def segment(c, r, mon):
    s = segs.make(c["spec"])
    cv = segs.Curve(c["spec"])
    k = type(s).__name__
    tol = cv.tol()
    mon.feat("segment:" + c["spec"][0])
    ts = [0, 1, 0.0, 1.0] + c["ts"] + many(r)
    before = R.read(s)
    pts = {}
    for t in ts:
        p = s.point(t)
        q = R.xy(p)
        pts[t] = q
        mon.ev("point:" + k)
        if k == "Move":
            mon.check(q == cv.end, "move:point", lambda: "%r at %g is %r" % (s, t, q))
            continue
        if t == 0:
            mon.check(R.near(q, R.xy(s.start), 1e-12 * cv.scale) and R.near(q, cv.start, 1e-12 * cv.scale), "start:" + k, lambda: "%r at 0 is %r" % (s, q))
        elif t == 1:
            mon.check(R.near(q, R.xy(s.end), 1e-12 * cv.scale) and R.near(q, cv.end, 1e-12 * cv.scale), "end:" + k, lambda: "%r at 1 is %r" % (s, q))
        elif tol is None:
            mon.ev("arc-too-ill-conditioned")
        else:
            w = cv.point(t)
            mon.check(R.near(q, w, tol), "point:" + k, lambda: "%r at %g is %r, expected %r (tolerance %g)" % (s, t, q, w, tol))
    order = ts + r.sample(ts, 2)
    r.shuffle(order)
    got = s.npoint(shaped(order, c["form"]))
    mon.check(len(got) == len(order), "npoint:count:" + k)
    for t, q in zip(order, got):
        mon.check(R.near((float(q[0]), float(q[1])), pts[t], 1e-12 * cv.scale), "npoint:" + k, lambda: "%r npoint at %r is %r, point gives %r" % (s, t, list(q), pts[t]))
    mon.check(len(s.npoint(shaped([], c["form"]))) == 0, "npoint:empty")
    mon.check(R.read(s) == before, "evaluation-mutates:" + k)
    if cv.start != cv.end or k == "Arc":
        mon.nontrivial()
    mon.state(k, round(cv.start[0]), round(cv.end[1]))
