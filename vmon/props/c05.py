"""C05: reversal retraces the same curve backwards."""
import math
import random
from copy import copy

from .. import gen, segs
from .. import ref_path as R

ID = "C05"
RULE = (
    "random segments of every kind, and random paths (open, closed, many subpaths, lone moves and closes, arcs), reversed as a "
    "segment, path or single subpath; geometry at 1-t, order and closure of subpaths, lengths, boxes, double reversal and "
    "direct_close() compared with the state before. Non-trivial: a path with a drawn segment or a segment of non-zero size; "
    "distinct by case."
)
QUICK, THOROUGH = 28000, 450000
MIN = 2000
ASSUMPTIONS = ["paths start with a move"]
TS = (0.0, 0.13, 0.5, 0.71, 1.0)


def corpus():
    yield dict(kind="path", prog=[["M", [0, 0]], ["L", [1, 0], [1, 1]], ["Z"], ["L", [5, 5]]], how="path", seed=1)
    yield dict(kind="path", prog=[["M", [0, 0]], ["L", [1, 0], [1, 1]], ["Z"], ["L", [5, 5]]], how="sub", seed=1)


def cases(r):
    while True:
        if r.random() < 0.3:
            yield dict(kind="seg", spec=segs.spec(r, kinds="mlcqqCCaaAA"))
        else:
            prog = gen.program(r, close_rate=r.choice([0, 0.1, 0.3]), letters=r.choice(["LHVZM", "LQCAZM", "LQCAZM", "QTCSLM", "AAZML", "M", "LZM", "LQCAM"]))
            # a move after each close, so that each subpath ends with its close
            out = []
            for it in prog:
                if out and out[-1][0] in "Zz" and it[0] not in "Mm":
                    if it[0] in "Zz":
                        continue
                    out.append(["M", gen.point(r, "int")])
                out.append(it)
            yield dict(kind="path", prog=out, how=r.choice(["path", "path", "sub", "direct"]), seed=r.randint(0, 1 << 40))


def drawn(segs_):
    return [s for s in segs_ if type(s).__name__ != "Move"]


def same_reversed(a, b, tol):
    """Real segment b is a traversed backwards (Line and Close alike)."""
    ka, kb = type(a).__name__.replace("Close", "Line"), type(b).__name__.replace("Close", "Line")
    if ka != kb:
        return False
    if ka == "Arc" and (a.sweep == 0) != (b.sweep == 0):
        return False
    t2 = tol
    if ka == "Arc" and a.sweep:
        big = float(max(a.rx, a.ry))
        off = abs(a.sweep) % math.pi
        t2 = tol * max(1.0, big / max(float(min(a.rx, a.ry)), 1e-300))
        t2 += big * min(5e-8, 1e-14 / max(min(off, math.pi - off), 1e-12))  # the sweep comes from an acos
    return R.near(R.xy(a.start), R.xy(b.end), tol) and R.near(R.xy(a.end), R.xy(b.start), tol) and all(
        R.near(R.xy(a.point(t)), R.xy(b.point(1 - t)), t2) for t in (0.13, 0.5, 0.71)
    )


def lengths(ss):
    return sum(s.length() for s in ss)


def boxes(ss):
    bs = [s.bbox() for s in drawn(ss)]
    if not bs:
        return None
    return min(b[0] for b in bs), min(b[1] for b in bs), max(b[2] for b in bs), max(b[3] for b in bs)


def check_subpath(mon, before, after, tol, where):
    """before/after: lists of real segments of one subpath (copies of before)."""
    mon.check(len(before) == len(after), where + ":count", lambda: "%d segments became %d" % (len(before), len(after)))
    A, B = drawn(before), drawn(after)
    closed = bool(A) and type(A[-1]).__name__ == "Close"
    mon.check(len(A) == len(B), where + ":drawn", lambda: "%r / %r" % (before, after))
    mon.check([type(s).__name__ for s in after[: len(after) - len(B)]] == [type(s).__name__ for s in before[: len(before) - len(A)]], where + ":moves")
    if not A:
        return closed
    mon.check((type(B[-1]).__name__ == "Close") == closed and sum(type(s).__name__ == "Close" for s in B) == closed, where + ":closure",
              lambda: "closed was %r: %r" % (closed, after))
    n = len(A)
    rots = [0] if not closed else range(n)
    ok = any(all(same_reversed(A[n - 1 - i], B[(i + k) % n], tol) for i in range(n)) for k in rots)
    mon.check(ok, where + ":curve", lambda: "not the same curve backwards: %r / %r" % (before, after))
    return closed


def connected(mon, p, tol, where):
    prev = z = None
    for s in p:
        if prev is not None:
            mon.check(R.near(R.xy(s.start), R.xy(prev.end), tol), where + ":connection", lambda: "%r after %r" % (s, prev))
        if type(s).__name__ == "Move":
            z = s.end
        if type(s).__name__ == "Close":
            mon.check(R.near(R.xy(s.end), R.xy(z), tol), where + ":close-end", lambda: "%r, move at %r" % (s, z))
        prev = s


def same(mon, a, b, tol, where):
    """Same segments in the same direction (first move's start aside)."""
    mon.check(len(a) == len(b), where + ":count")
    for i, (x, y) in enumerate(zip(a, b)):
        ok = type(x) is type(y) and R.near(R.xy(x.end), R.xy(y.end), tol) and (
            type(x).__name__ == "Move" or R.near(R.xy(x.start), R.xy(y.start), tol)
        ) and all(R.near(u, v, tol) for u, v in zip(R.ctrl_of(x), R.ctrl_of(y)))
        if ok and type(x).__name__ == "Arc":
            ok = all(R.near(u, v, tol) for u, v in zip(R.read(x)[3][:3], R.read(y)[3][:3])) and abs(x.sweep - y.sweep) < 1e-9
        mon.check(ok, where, lambda: "segment %d %r became %r" % (i, x, y))


def run(c, mon):
    from svgio.path import Path

    if c["kind"] == "seg":
        return run_segment(c, mon)
    r = random.Random(c["seed"])
    p = Path(gen.plain(c["prog"]))
    kinds = [type(s).__name__ for s in p]
    if any(a == "Close" and b != "Move" for a, b in zip(kinds, kinds[1:])):
        # drawing goes on after a close without a move
        mon.feat("draw-after-close")
        try:
            judge(c, mon, Path, p, r)
        except Exception as e:
            mon.fail("draw-after-close", "reversing a subpath that goes on after its close: %r" % (e,))
        return
    judge(c, mon, Path, p, r)


def judge(c, mon, Path, p, r):
    if drawn(p):
        mon.nontrivial()
    if c["how"] == "direct":
        q = Path(p)
        closes = [s for s in q if type(s).__name__ == "Close"]
        tol = 1e-9 * R.seg_scale(list(p))
        longs = sum(R.dist(R.xy(s.start), R.xy(s.end)) > 0 for s in closes)
        p.direct_close()
        connected(mon, p, tol, "direct_close")
        mon.check(len(p) == len(q) + longs, "direct_close:count", lambda: "%d closes with length, %d segments became %d" % (longs, len(q), len(p)))
        rest = list(p)
        for s in q:
            x = rest.pop(0)
            if type(s).__name__ == "Close":
                if R.dist(R.xy(s.start), R.xy(s.end)) > 0:
                    mon.check(type(x).__name__ == "Line" and R.near(R.xy(x.start), R.xy(s.start), tol) and R.near(R.xy(x.end), R.xy(s.end), tol),
                              "direct_close:line", lambda: "%r instead of a line for %r" % (x, s))
                    x = rest.pop(0)
                mon.check(type(x).__name__ == "Close" and R.near(R.xy(x.start), R.xy(x.end), tol) and R.near(R.xy(x.end), R.xy(s.end), tol),
                          "direct_close:close", lambda: "%r instead of a zero length close for %r" % (x, s))
            else:
                same(mon, [s], [x], tol, "direct_close:segment")
        mon.ev("direct_close", longs)
    before = [copy(s) for s in p]
    tol = 1e-9 * R.seg_scale(before)
    olds = [[copy(s) for s in sub] for sub in p.as_subpaths()]
    if c["how"] == "sub":
        i = r.randrange(len(olds))
        list(p.as_subpaths())[i].reverse()
        mon.ev("subpath-reversed")
        news = [list(sub) for sub in p.as_subpaths()]
        mon.check(len(news) == len(olds), "sub:count", lambda: "%r / %r" % (olds, news))
        connected(mon, p, tol, "sub")
        for j, (a, b) in enumerate(zip(olds, news)):
            if j == i:
                check_subpath(mon, a, b, tol, "sub")
            else:
                same(mon, a, b, tol, "sub:other")
        check_measures(mon, before, list(p), "sub")
        list(p.as_subpaths())[i].reverse()
        same(mon, before, list(p), tol, "sub:twice")
        return
    zero = all(R.dist(R.xy(s.start), R.xy(s.end)) <= 1e-12 for s in before if type(s).__name__ == "Close")
    total = lengths(before)
    ts, want = [], []
    if zero and total > 0:
        ts = [0.0, 1.0] + [r.random() for _ in range(4)]
        bounds, acc = [], 0.0
        for s in before:
            bounds.append(acc / total)
            acc += s.length()
            bounds.append(acc / total)
        ts = [t for t in ts if t in (0.0, 1.0) or min(abs(t - b) for b in bounds) > 1e-6]
        want = [R.xy(p.point(t)) for t in ts]
    p.reverse()
    mon.ev("path-reversed")
    connected(mon, p, tol, "path")
    news = [list(sub) for sub in p.as_subpaths()]
    mon.check(len(news) == len(olds), "path:subpaths", lambda: "%d subpaths became %d: %r / %r" % (len(olds), len(news), before, list(p)))
    for a, b in zip(olds, reversed(news)):
        closed = check_subpath(mon, a, b, tol, "path")
        mon.feat("subpath:" + ("closed" if closed else "open"))
    check_measures(mon, before, list(p), "path")
    for t, w in zip(ts, want):
        q = R.xy(p.point(1 - t))
        mon.check(R.near(q, w, 1e-6 * R.seg_scale(before)), "path:point", lambda: "original at %r is %r, reversed at %r is %r: %r" % (t, w, 1 - t, q, before))
        mon.ev("point-compared")
    mon.state(tuple(type(s).__name__[0] for s in p))
    p.reverse()
    same(mon, before, list(p), tol, "path:twice")


def check_measures(mon, a, b, where):
    x, y = lengths(a), lengths(b)
    sc = R.seg_scale(a)
    mon.check(abs(x - y) <= 1e-7 * sc * (1 + len(a)), where + ":length", lambda: "length %r became %r" % (x, y))
    u, v = boxes(a), boxes(b)
    mon.check((u is None) == (v is None), where + ":bbox")
    if u is not None:
        big = max([1.0] + [float(max(s.rx, s.ry) / max(min(s.rx, s.ry), 1e-300)) for s in a if type(s).__name__ == "Arc" and s.sweep])
        mon.check(all(abs(i - j) <= 1e-8 * sc * big for i, j in zip(u, v)), where + ":bbox", lambda: "box %r became %r: %r" % (u, v, a))


def run_segment(c, mon):
    s = segs.make(c["spec"])
    cv = segs.Curve(c["spec"])
    tol = cv.tol()
    if tol is None:
        mon.ev("arc-too-ill-conditioned")
        return
    tol = max(tol, 1e-8 * cv.scale)
    k = type(s).__name__
    mon.feat("segment:" + c["spec"][0])
    if cv.start != cv.end:
        mon.nontrivial()
    o = copy(s)
    pts = None if k == "Move" else [R.xy(s.point(t)) for t in TS]
    ln, bb = s.length(), s.bbox()
    s.reverse()
    mon.ev("segment-reversed")
    mon.check(type(s).__name__ == k, "seg:kind")
    mon.check(R.xy(s.start) == R.xy(o.end) and R.xy(s.end) == R.xy(o.start), "seg:ends", lambda: "%r reversed %r" % (o, s))
    if pts:
        for t, w in zip(TS, pts):
            q = R.xy(s.point(1 - t))
            mon.check(R.near(q, w, tol), "seg:point", lambda: "%r at %g is %r, reversed at %g is %r" % (o, t, w, 1 - t, q))
    mon.check(abs(s.length() - ln) <= 1e-7 * cv.scale, "seg:length", lambda: "%r: %r became %r" % (o, ln, s.length()))
    mon.check(all(abs(u - v) <= 10 * tol for u, v in zip(bb, s.bbox())), "seg:bbox", lambda: "%r: %r became %r" % (o, bb, s.bbox()))
    s.reverse()
    same(mon, [o], [s], 1e-9 * cv.scale, "seg:twice")
    mon.check(s == o, "seg:twice-equal", lambda: "%r became %r" % (o, s))
