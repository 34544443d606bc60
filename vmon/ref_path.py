"""Independent reference for SVG path geometry (interpretation of path programs, curves, arcs)."""
import math
from math import atan2, cos, hypot, pi, sin, sqrt


class Arc:
    """Elliptical arc in centre form. Degenerate: radii None means the straight line."""

    def __init__(self, p0, rx, ry, rot_deg, fa, fs, p1):
        # SVG 1.1 F.6
        self.p0, self.p1 = p0, p1
        self.line = False
        rx, ry = abs(rx), abs(ry)
        self.scaled = 1.0
        if p0 == p1:
            self.line = True
            self.empty = True
            return
        if rx == 0 or ry == 0:
            self.line = True
            return
        phi = math.radians(rot_deg % 360)
        c, s = cos(phi), sin(phi)
        dx, dy = (p0[0] - p1[0]) / 2, (p0[1] - p1[1]) / 2
        x1, y1 = c * dx + s * dy, -s * dx + c * dy
        lam = (x1 / rx) ** 2 + (y1 / ry) ** 2
        if lam > 1:
            k = sqrt(lam)
            rx, ry = rx * k, ry * k
            self.scaled = k
            self.lam = 1.0
            co = 0.0
        else:
            self.lam = lam
            co = sqrt(max(0.0, 1 / lam - 1))
        if bool(fa) == bool(fs):
            co = -co
        cxp, cyp = co * rx * y1 / ry, -co * ry * x1 / rx
        self.cx = c * cxp - s * cyp + (p0[0] + p1[0]) / 2
        self.cy = s * cxp + c * cyp + (p0[1] + p1[1]) / 2
        self.rx, self.ry, self.phi = rx, ry, phi
        t1 = atan2((y1 - cyp) / ry, (x1 - cxp) / rx)
        t2 = atan2((-y1 - cyp) / ry, (-x1 - cxp) / rx)
        d = t2 - t1
        if fs:
            while d < 0:
                d += 2 * pi
            while d >= 2 * pi:
                d -= 2 * pi
        else:
            while d > 0:
                d -= 2 * pi
            while d <= -2 * pi:
                d += 2 * pi
        self.t1, self.d = t1, d

    def point(self, t):
        if self.line:
            return (self.p0[0] + (self.p1[0] - self.p0[0]) * t, self.p0[1] + (self.p1[1] - self.p0[1]) * t)
        a = self.t1 + self.d * t
        x, y = self.rx * cos(a), self.ry * sin(a)
        c, s = cos(self.phi), sin(self.phi)
        return (self.cx + c * x - s * y, self.cy + s * x + c * y)


class Seg:
    """kind in Move, Line, QuadraticBezier, CubicBezier, Arc, Close."""

    def __init__(self, kind, start, end, *ctrl, arc=None):
        self.kind, self.start, self.end, self.ctrl, self.arc = kind, start, end, ctrl, arc

    def point(self, t):
        if self.kind == "Move":
            return self.end
        if self.arc is not None:
            if t == 0:
                return self.start
            if t == 1:
                return self.end
            return self.arc.point(t)
        return bezier((self.start,) + self.ctrl + (self.end,), t)

    def __repr__(self):
        return "%s%r" % (self.kind, (self.start,) + self.ctrl + (self.end,))


def bezier(pts, t):
    """de Casteljau."""
    pts = [tuple(p) for p in pts]
    while len(pts) > 1:
        pts = [(a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t) for a, b in zip(pts, pts[1:])]
    return pts[0]


def interpret(prog, segs=None):
    """Runs a path program by the SVG rules. Returns a list of Seg (appending to `segs` if given)."""
    segs = [] if segs is None else segs

    def cur():
        return segs[-1].end if segs else (0.0, 0.0)

    def sub_start():
        for s in reversed(segs):
            if s.kind == "Move":
                return s.end
        return (0.0, 0.0)

    for item in prog:
        L, groups = item[0], item[1:]
        low = L.islower()
        U = L.upper()
        if U == "Z":
            segs.append(Seg("Close", cur(), sub_start()))
            continue
        for gi, g in enumerate(groups):
            p = cur()
            ox, oy = p if low else (0.0, 0.0)
            if g and g[-1] == "z":
                z = sub_start()
                nums = list(g[:-1])
                tail = z
            else:
                nums = list(g)
                tail = None

            def pt(i):
                """i-th coordinate pair of the group."""
                if tail is not None and 2 * i >= len(nums):
                    return tail
                return (nums[2 * i] + ox, nums[2 * i + 1] + oy)

            last = segs[-1] if segs else None
            if U == "M":
                if gi == 0:
                    segs.append(Seg("Move", p if segs else None, pt(0)))
                else:
                    segs.append(Seg("Line", p, pt(0)))
            elif U == "L":
                segs.append(Seg("Line", p, pt(0)))
            elif U == "H":
                segs.append(Seg("Line", p, (g[0] + ox, p[1])))
            elif U == "V":
                segs.append(Seg("Line", p, (p[0], g[0] + oy)))
            elif U == "C":
                segs.append(Seg("CubicBezier", p, pt(2), pt(0), pt(1)))
            elif U == "S":
                c = last.ctrl[1] if last.kind == "CubicBezier" else p
                c = (2 * p[0] - c[0], 2 * p[1] - c[1])
                segs.append(Seg("CubicBezier", p, pt(1), c, pt(0)))
            elif U == "Q":
                segs.append(Seg("QuadraticBezier", p, pt(1), pt(0)))
            elif U == "T":
                c = last.ctrl[0] if last.kind == "QuadraticBezier" else p
                c = (2 * p[0] - c[0], 2 * p[1] - c[1])
                segs.append(Seg("QuadraticBezier", p, pt(0), c))
            elif U == "A":
                e = tail if tail is not None else (g[5] + ox, g[6] + oy)
                segs.append(Seg("Arc", p, e, arc=Arc(p, g[0], g[1], g[2], g[3], g[4], e)))
            else:
                raise AssertionError(L)
    return segs


def scale_of(segs):
    m = 1.0
    for s in segs:
        for q in (s.start, s.end) + tuple(s.ctrl):
            if q is not None:
                m = max(m, abs(q[0]), abs(q[1]))
        if s.arc is not None and not s.arc.line:
            m = max(m, s.arc.rx, s.arc.ry, abs(s.arc.cx), abs(s.arc.cy))
    return m


def near(p, q, tol):
    return p is not None and q is not None and abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol


def dist(p, q):
    return hypot(p[0] - q[0], p[1] - q[1])


# -- reading real segments through their public attributes -----------------------------------------------------------


def xy(p):
    return None if p is None else (float(p[0]), float(p[1]))


def ctrl_of(seg):
    k = type(seg).__name__
    if k == "QuadraticBezier":
        return (xy(seg.control),)
    if k == "CubicBezier":
        return (xy(seg.control1), xy(seg.control2))
    return ()


def arc_of(seg):
    return (xy(seg.center), float(seg.rx), float(seg.ry), float(seg.rotation), float(seg.sweep))


def read(seg):
    """Plain description of a real segment, for snapshots and comparisons."""
    k = type(seg).__name__
    d = [k, xy(seg.start), xy(seg.end)] + list(ctrl_of(seg))
    if k == "Arc":
        d.append((xy(seg.center), xy(seg.prx), xy(seg.pry), float(seg.sweep)))
    return tuple(d)


def snapshot(path):
    """Everything observable of a path's segments, exactly (used for before/after comparisons)."""
    out = []
    for s in list(path):
        out.append(read(s) + (bool(s.relative) if s.relative is not None else None, bool(s.smooth) if s.smooth is not None else None))
    return out


def seg_scale(segs):
    m = 1.0
    for s in segs:
        for q in (s.start, s.end) + tuple(ctrl_of(s)):
            if q is not None:
                m = max(m, abs(q[0]), abs(q[1]))
        if type(s).__name__ == "Arc" and s.prx is not None and s.center is not None:
            m = max(m, abs(float(s.rx)), abs(float(s.ry)), abs(s.center[0]), abs(s.center[1]))
    return m


def match(mon, real, ref, where, tol=None, arc_tol=None, ts=(0.1, 0.37, 0.5, 0.81)):
    """Monitor: the real segments are the reference segments."""
    real = list(real)
    mon.check(len(real) == len(ref), where + ":count", lambda: "%d segments, %d expected: %r vs %r" % (len(real), len(ref), real, ref))
    sc = scale_of(ref)
    tol = 1e-9 * sc if tol is None else tol * sc
    for i, (a, b) in enumerate(zip(real, ref)):
        k = type(a).__name__
        mon.check(k == b.kind, where + ":kind", lambda: "segment %d is %s, expected %s" % (i, k, b.kind))
        mon.ev("seg:" + k)
        mon.check(near(xy(a.end), b.end, tol), where + ":end:" + k, lambda: "segment %d ends %r, expected %r" % (i, a.end, b.end))
        if k != "Move":
            mon.check(near(xy(a.start), b.start, tol), where + ":start:" + k, lambda: "segment %d starts %r, expected %r" % (i, a.start, b.start))
        for u, v in zip(ctrl_of(a), b.ctrl):
            mon.check(near(u, v, tol), where + ":control:" + k, lambda: "segment %d control %r, expected %r" % (i, u, v))
        if k == "Arc":
            match_arc(mon, a, b.arc, where, sc, ts, tol=arc_tol, i=i)


def match_arc(mon, a, arc, where, sc, ts, tol=None, i=0):
    if arc.line:
        # zero radii: the straight line; coinciding ends: nothing drawn
        for t in ts:
            p = xy(a.point(t))
            q = arc.point(t)
            mon.check(near(p, q, 1e-9 * sc), where + ":arc:line", lambda: "degenerate arc %d at %g is %r, expected %r" % (i, t, p, q))
        mon.feat("arc-degenerate")
        return
    # sensitivity of the centre: its offset is sqrt(1/lam-1), ill conditioned as lam -> 1
    cond = 1.0
    if arc.lam > 0.999999:
        cond = 1e3
    big = max(arc.rx, arc.ry) / max(min(arc.rx, arc.ry), 1e-300)
    cond *= max(1.0, big)
    tiny = dist(arc.p0, arc.p1)
    cond *= max(1.0, 1e-3 * sc / max(tiny, 1e-300))
    tol = (1e-9 if tol is None else tol) * sc * cond
    if tol > 1e-3 * sc or tol > 0.05 * min(arc.rx, arc.ry):
        mon.ev("arc-too-ill-conditioned")
        return
    for t in ts:
        p = xy(a.point(t))
        q = arc.point(t)
        mon.check(near(p, q, tol), where + ":arc:point", lambda: "arc %d at %g is %r, expected %r" % (i, t, p, q))
    mon.check(near(xy(a.center), (arc.cx, arc.cy), tol), where + ":arc:center", lambda: "arc %d centre %r, expected %r" % (i, a.center, (arc.cx, arc.cy)))
    mon.check(
        abs(a.rx - arc.rx) <= tol and abs(a.ry - arc.ry) <= tol or abs(a.rx - arc.ry) <= tol and abs(a.ry - arc.rx) <= tol,
        where + ":arc:radii", lambda: "arc %d radii %r %r, expected %r %r" % (i, a.rx, a.ry, arc.rx, arc.ry),
    )
    mon.check((a.sweep > 0) == (arc.d > 0), where + ":arc:direction", lambda: "arc %d sweeps %r, expected %r" % (i, a.sweep, arc.d))
    mon.feat("arc:%s%s%s" % ("large" if abs(arc.d) > pi else "small", "+" if arc.d > 0 else "-", ":scaled" if arc.scaled > 1 else ""))


def arc_sensitivity(p0, rx, ry, rot_deg, fa, fs, p1, rel=1e-6, ts=(0.1, 0.37, 0.5, 0.81)):
    """How far the points of an SVG arc move when radii and rotation are only known to `rel`."""
    base = Arc(p0, rx, ry, rot_deg, fa, fs, p1)
    if base.line:
        return 0.0
    worst = 0.0
    r = max(base.rx, base.ry)
    dr = max(rel * abs(rot_deg), rel)
    for a in (-rel, rel):
        for b in (-rel, rel):
            for c in (-dr, dr):
                o = Arc(p0, rx * (1 + a), ry * (1 + b), rot_deg + c, fa, fs, p1)
                for t in ts:
                    worst = max(worst, dist(base.point(t), o.point(t)))
                if (o.d > 0) != (base.d > 0) or abs(abs(o.d) - abs(base.d)) > 1:
                    worst = max(worst, r)
    return worst


def arc_args_of(a):
    """The SVG parameters describing a real Arc segment (absolute)."""
    return (xy(a.start), float(a.rx), float(a.ry), math.degrees(float(a.get_rotation())), abs(a.sweep) > pi, a.sweep > 0, xy(a.end))


def same_segments(mon, p, q, where, tol=2e-10, arc_rel=None, ts=(0.1, 0.37, 0.5, 0.81)):
    """Monitor: two sequences of real segments have the same kinds and geometry (arc_rel: digits lost by arc output)."""
    p, q = list(p), list(q)
    mon.check(len(p) == len(q), where + ":count", lambda: "%d segments became %d: %r / %r" % (len(p), len(q), p, q))
    sc = max(seg_scale(p), seg_scale(q))
    tol = tol * sc
    for i, (a, b) in enumerate(zip(p, q)):
        k = type(a).__name__
        mon.check(k == type(b).__name__, where + ":kind", lambda: "segment %d %r became %r" % (i, a, b))
        mon.check(near(xy(a.end), xy(b.end), tol), where + ":end:" + k, lambda: "segment %d %r became %r" % (i, a, b))
        if k != "Move":
            mon.check(near(xy(a.start), xy(b.start), tol), where + ":start:" + k, lambda: "segment %d %r became %r" % (i, a, b))
        for u, v in zip(ctrl_of(a), ctrl_of(b)):
            mon.check(near(u, v, tol), where + ":control:" + k, lambda: "segment %d %r became %r" % (i, a, b))
        if k == "Arc":
            if dist(xy(a.start), xy(a.end)) < 1e-5 * max(float(a.rx), float(a.ry)):
                mon.ev("arc-too-ill-conditioned")
                continue
            if a.sweep == 0 or b.sweep == 0:
                mon.check(a.sweep == b.sweep or dist(xy(a.start), xy(a.end)) < tol, where + ":arc:degenerate", lambda: "arc %d %r became %r" % (i, a, b))
                continue
            t = tol
            if arc_rel:
                t = tol + 4 * arc_sensitivity(*arc_args_of(a), rel=arc_rel)
            off = abs(a.sweep) % pi
            t += max(a.rx, a.ry) * min(5e-8, 1e-14 / max(min(off, pi - off), 1e-12))  # the sweep comes from an acos
            t += 1e-9 * sc * (max(a.rx, a.ry) / max(min(a.rx, a.ry), 1e-300))
            if t > 0.02 * min(a.rx, a.ry):
                mon.ev("arc-too-ill-conditioned")
                continue
            mon.check((a.sweep > 0) == (b.sweep > 0), where + ":arc:direction", lambda: "arc %d %r became %r" % (i, a, b))
            for x in ts:
                mon.check(near(xy(a.point(x)), xy(b.point(x)), t), where + ":arc:point", lambda: "arc %d at %g: %r became %r (tolerance %g), %r %r" % (i, x, a.point(x), b.point(x), t, a, b))
            mon.ev("arc-compared")
