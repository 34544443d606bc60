"""C11: arc constructors produce the arc they describe."""
import math
import random
from math import cos, hypot, pi, sin

from .. import gen, segs
from .. import ref_path as R

ID = "C11"
RULE = (
    "arcs built in each documented way from parameters of a known arc (SVG endpoint numbers, complex endpoint numbers, centre and "
    "ends, radius, control point, bulge, sagitta, quarter by its radii, centre and sweep from either end, bounding box; positional and keyword "
    "spelling); the result is compared with the known arc at many parameters, and its derived attributes with each other. "
    "Non-trivial: an arc with distinct ends; distinct by case."
)
QUICK, THOROUGH = 144000, 1500000
MIN = 5000
ASSUMPTIONS = ["ellipses no more eccentric than 1:50 and chords not tiny against the radii"]
KINDS = ["svg", "complex", "complexkw", "center", "centerpos", "ellipse", "radius", "control", "bulge", "sagitta", "sweepstart", "sweepend", "sweepellipse", "bbox", "bboxsweep", "native", "quarter"]


def num(r, lo=-50, hi=50):
    return r.choice([r.uniform(lo, hi), r.randint(lo, hi), round(r.uniform(lo, hi), 1)])


LATTICE = [(x, y) for n, x, y in [(n, x, y) for n in (5, 25) for x in range(-n, n + 1) for y in range(-n, n + 1) if x * x + y * y == n * n]]


def lattice(r):
    """A circle and two or three of its points, all integers: exactly vertical and horizontal chords, right angles."""
    n = r.choice([5, 5, 25])
    pts = [p for p in LATTICE if p[0] ** 2 + p[1] ** 2 == n * n]
    a, b, p = r.sample(pts, 3)
    c = [r.randint(-9, 9), r.randint(-9, 9)]
    if r.random() < 0.2:
        c = [-a[0], -a[1]]
    t0, t1, tp = (math.atan2(q[1], q[0]) for q in (a, b, p))
    full = (t1 - t0) % (2 * pi)
    sweep = full if (tp - t0) % (2 * pi) < full else full - 2 * pi
    u = ((tp - t0) % (2 * pi)) / full if sweep > 0 else ((t0 - tp) % (2 * pi)) / -sweep
    return dict(
        kind=r.choice(KINDS + ["control"] * 12 + ["radius", "center", "bulge"]), c=c, rx=n, ry=n, rot=0, t0=t0, sweep=sweep, u=u, ccw=r.random() < 0.5, aslist=r.random() < 0.5, seed=r.randint(0, 1 << 30),
        exact=[[q[0] + c[0], q[1] + c[1]] for q in (a, b, p)],
    )


def cases(r):
    while True:
        if r.random() < 0.2:
            yield lattice(r)
            continue
        rx = abs(num(r, 1, 60)) + r.choice([0, 0.5])
        ry = rx if r.random() < 0.3 else rx * r.choice([0.5, 2, r.uniform(0.03, 1), r.uniform(1, 30)])
        yield dict(
            kind=r.choice(KINDS), c=[num(r), num(r)] if r.random() < 0.93 else [0, 0], rx=rx, ry=ry,
            rot=r.choice([0, 0, 30, 45, 90, -90, 180, 270, r.uniform(-180, 180), r.uniform(-360, 720)]),
            t0=r.choice([0, pi / 2, pi, -pi / 2, pi / 4, r.uniform(-pi, pi), r.uniform(-pi, pi), r.uniform(-pi, pi)]),
            sweep=r.choice([pi / 2, -pi / 2, 1.5 * pi, -1.5 * pi, r.uniform(0.05, 3.1), -r.uniform(0.05, 3.1), r.uniform(3.2, 6.2), -r.uniform(3.2, 6.2), r.choice([1, -1]) * 10 ** -r.uniform(0.3, 1.6)]),
            ccw=r.random() < 0.5, aslist=r.random() < 0.5, u=r.uniform(0.15, 0.85), seed=r.randint(0, 1 << 30),
        )


class Ref:
    def __init__(self, cx, cy, rx, ry, phi, t0, sweep):
        self.cx, self.cy, self.rx, self.ry, self.phi, self.t0, self.sweep = cx, cy, rx, ry, phi, t0, sweep

    def at(self, a):
        x, y = self.rx * cos(a), self.ry * sin(a)
        return (self.cx + x * cos(self.phi) - y * sin(self.phi), self.cy + x * sin(self.phi) + y * cos(self.phi))

    def point(self, t):
        return self.at(self.t0 + self.sweep * t)

    def off(self, p):
        """How far from 1 the ellipse equation is at p."""
        x, y = p[0] - self.cx, p[1] - self.cy
        u = (x * cos(self.phi) + y * sin(self.phi)) / self.rx
        v = (-x * sin(self.phi) + y * cos(self.phi)) / self.ry
        return abs(hypot(u, v) - 1)


def turn(x):
    """Difference of angles modulo a turn, in [-pi, pi]."""
    return math.remainder(x, 2 * pi)


def run(c, mon):
    from svgio.basic import Point
    from svgio.path import Arc

    k = c["kind"]
    rx, ry, rot = c["rx"], c["ry"], math.radians(c["rot"])
    circle = k in ("center", "centerpos", "radius", "control", "bulge", "sagitta", "sweepstart", "sweepend")
    if circle:
        ry, rot = rx, 0.0
    if k in ("bbox", "bboxsweep", "quarter"):
        rot = 0.0
    if k == "quarter":
        c = dict(c, t0=round(c["t0"] * 2 / pi) * pi / 2, sweep=math.copysign(pi / 2, c["sweep"]))
        c.pop("exact", None)
    ref = Ref(c["c"][0], c["c"][1], rx, ry, rot, c["t0"], c["sweep"])
    s, e = ref.point(0), ref.point(1)
    exact = c.get("exact")
    if exact:
        s, e = tuple(exact[0]), tuple(exact[1])
        mon.feat("lattice:" + k)
    big, small = max(rx, ry), min(rx, ry)
    if R.dist(s, e) < 0.02 * small:
        mon.ev("skipped:tiny-chord")
        return
    pt = (lambda p: p) if c["aslist"] else (lambda p: Point(p))
    if c["ccw"] and c["aslist"] and k != "native":  # six values with a complex second one are SVG parameters
        pt = lambda p: complex(*p)
    center = (ref.cx, ref.cy)
    ccw = c["sweep"] < 0
    scale = max(map(abs, s + e + center)) + big
    tol = 1e-9 * scale * (big / small) * 10
    direction = True
    large, cw = abs(c["sweep"]) > pi, c["sweep"] > 0
    if k == "svg":
        a = Arc(pt(s), rx, ry, c["rot"], int(large) if c["ccw"] else large, int(cw), pt(e))
    elif k == "complex":
        a = Arc(complex(*s), complex(rx, ry), c["rot"], large, cw, complex(*e))
    elif k == "complexkw":
        a = Arc(start=complex(*s), radius=complex(rx, ry), rotation=c["rot"], arc_flag=int(large), sweep_flag=int(cw), end=complex(*e))
    elif k == "center":
        a = Arc(start=pt(s), end=pt(e), center=pt(center), ccw=ccw)
    elif k == "centerpos":
        if c["aslist"]:
            a = Arc(pt(s), pt(e), pt(center), ccw=ccw)
        elif not ccw:
            a = Arc(pt(s), pt(e), center=pt(center))  # clockwise is the default
        else:
            a = Arc(pt(s), end=pt(e), center=pt(center), ccw=ccw)
    elif k == "ellipse":
        if not ccw and c["ccw"]:
            a = Arc(start=pt(s), end=pt(e), center=pt(center), rx=rx, ry=ry, rotation=rot)
        else:
            a = Arc(start=pt(s), end=pt(e), center=pt(center), rx=rx, ry=ry, rotation=rot, ccw=ccw)
    elif k == "native":
        prx, pry = ref.at(0), ref.at(pi / 2)
        if c["ccw"]:
            a = Arc(start=pt(s), end=pt(e), center=pt(center), prx=pt(prx), pry=pt(pry), sweep=c["sweep"])
        elif c["u"] < 0.3:
            a = Arc(pt(s), pt(e), pt(center), pt(prx), pry=pt(pry), sweep=c["sweep"])
        else:
            a = Arc(pt(s), pt(e), pt(center), pt(prx), pt(pry), c["sweep"])
    elif k == "radius":
        # the minor arc of that radius, in the requested direction; clockwise by default
        if large:
            ref = Ref(ref.cx, ref.cy, rx, ry, 0, ref.t0 + ref.sweep, turn(-ref.sweep))
            s, e = e, s
            if not exact:
                s, e = ref.point(0), ref.point(1)
            ccw = ref.sweep < 0
        r = rx
        if c["u"] > 0.8 and not exact:
            # a radius shorter than half the chord is enlarged to it
            r = R.dist(s, e) / 2 * c["u"]
            mid = ((s[0] + e[0]) / 2, (s[1] + e[1]) / 2)
            h = R.dist(s, e) / 2
            ref = Ref(mid[0], mid[1], h, h, 0, math.atan2(s[1] - mid[1], s[0] - mid[0]), -pi if ccw else pi)
            tol = tol * 10 + 1e-7 * scale
            a = Arc(start=pt(s), end=pt(e), r=r, ccw=ccw) if ccw or c["ccw"] else Arc(start=pt(s), end=pt(e), r=r)
            mon.feat("radius:enlarged")
        elif ccw or c["ccw"]:
            a = Arc(start=pt(s), end=pt(e), r=r, ccw=ccw)
        else:
            a = Arc(pt(s), pt(e), r=r)
        tol = tol / max(1e-3, 1 - abs(ref.sweep) / pi) ** 0.5 if abs(ref.sweep) < pi * 0.999 else max(tol, 1e-5 * scale)
    elif k == "control":
        p = tuple(exact[2]) if exact else ref.point(c["u"])
        # the centre is recovered from two chords
        d1, d2 = R.dist(s, p), R.dist(p, e)
        tol = tol * 100 * (rx / d1) * (rx / d2) * (rx / R.dist(s, e))
        a = Arc(start=pt(s), end=pt(e), control=pt(p)) if c["ccw"] else Arc(pt(s), pt(e), control=pt(p))
    elif k in ("bulge", "sagitta"):
        b = math.tan(c["sweep"] / 4)
        tol = tol * rx / R.dist(s, e)
        if k == "bulge":
            a = Arc(start=pt(s), end=pt(e), bulge=b)
        else:
            a = Arc(start=pt(s), end=pt(e), sagitta=b * R.dist(s, e) / 2)
    elif k == "quarter":
        kw = {} if not ccw else dict(ccw=True) if c["ccw"] else dict(scooped=True)
        if not ccw and c["ccw"]:
            kw = dict(ccw=False) if c["u"] < 0.5 else dict(scooped=False)
        a = Arc(start=pt(s), end=pt(e), rx=rx, ry=ry, **kw)
    elif k == "sweepstart":
        a = Arc(start=pt(s), center=pt(center), sweep=c["sweep"])
    elif k == "sweepend":
        a = Arc(end=pt(e), center=pt(center), sweep=c["sweep"])
    elif k == "sweepellipse":
        kw = dict(start=pt(s)) if c["ccw"] else dict(end=pt(e))
        a = Arc(center=pt(center), sweep=c["sweep"], rx=rx, ry=ry, rotation=rot, **kw)
    elif k in ("bbox", "bboxsweep"):
        box = dict(left=ref.cx - rx, right=ref.cx + rx, top=ref.cy - ry, bottom=ref.cy + ry)
        if k == "bbox":
            a = Arc(start=pt(s), end=pt(e), ccw=ccw, **box)
        elif c["ccw"]:
            a = Arc(start=pt(s), sweep=c["sweep"], **box)
        else:
            a = Arc(end=pt(e), sweep=c["sweep"], **box)
    if tol > 1e-3 * small:
        mon.ev("skipped:ill-conditioned")
        return
    desc = lambda: "%s of %r" % (k, dict(start=s, end=e, center=(ref.cx, ref.cy), rx=ref.rx, ry=ref.ry, rotation=ref.phi, t0=ref.t0, sweep=ref.sweep))
    given = k not in ("sweepstart", "sweepend", "sweepellipse", "bboxsweep")
    et = 0 if given else tol
    mon.check(R.near(R.xy(a.start), s, et), "start:" + k, lambda: "starts %r, %s" % (a.start, desc()))
    mon.check(R.near(R.xy(a.end), e, et), "end:" + k, lambda: "ends %r, %s" % (a.end, desc()))
    mon.check((a.sweep > 0) == (ref.sweep > 0), "direction:" + k, lambda: "sweeps %r, %s" % (a.sweep, desc()))
    mon.check(abs(float(a.sweep) - ref.sweep) <= tol / small + 1e-7, "sweep:" + k, lambda: "sweeps %r, %s" % (a.sweep, desc()))
    mon.check(R.near(R.xy(a.center), (ref.cx, ref.cy), tol), "center:" + k, lambda: "centre %r, %s" % (a.center, desc()))
    mon.check(abs(float(a.rx) - ref.rx) <= tol and abs(float(a.ry) - ref.ry) <= tol, "radii:" + k, lambda: "radii %r %r, %s" % (a.rx, a.ry, desc()))
    for t in (0, 0.11, 0.3, 0.5, 0.8, 1):
        p, q = R.xy(a.point(t)), ref.point(t)
        mon.check(R.near(p, q, tol + 1e-7 * big), "point:" + k, lambda: "at %g is %r, expected %r; %s" % (t, p, q, desc()))
    if k == "sagitta" or k == "bulge":
        # height over the chord at the middle
        m = R.xy(a.point(0.5))
        h = R.dist(m, ((s[0] + e[0]) / 2, (s[1] + e[1]) / 2))
        mon.check(abs(h - abs(b) * R.dist(s, e) / 2) <= tol, "height:" + k, lambda: "height %r, %s" % (h, desc()))
    if k == "control":
        mon.check(ref.off(p) < 1 and abs(R.dist(R.xy(a.center), p0(ref, c)) - float(a.rx)) <= tol, "through:" + k, lambda: "misses the control point; %s" % desc())
    attributes(a, ref, mon, tol, c, k, desc)
    mon.ev("arc:" + k)
    mon.feat("arc:%s:%s%s" % (k, "large" if abs(ref.sweep) > pi else "small", "+" if ref.sweep > 0 else "-"))
    mon.nontrivial()
    mon.state(k, round(ref.t0, 1), round(ref.sweep, 1), ref.rx > ref.ry)


def p0(ref, c):
    return ref.point(c["u"])


def attributes(a, ref, mon, tol, c, k, desc):
    r = random.Random(c["seed"])
    big, small = max(ref.rx, ref.ry), min(ref.rx, ref.ry)
    at = tol / small * 10 + 1e-8
    for name in ("start", "end"):
        p = R.xy(getattr(a, name))
        mon.check(ref.off(p) <= at, "on-ellipse:" + name, lambda: "%s %r is off the ellipse; %s" % (name, p, desc()))
    st, et = float(a.get_start_t()), float(a.get_end_t())
    mon.check(abs(turn(st - ref.t0)) <= at, "start-t", lambda: "start t %r; %s" % (st, desc()))
    mon.check(abs(turn(et - ref.t0 - ref.sweep)) <= at, "end-t", lambda: "end t %r; %s" % (et, desc()))
    mon.check(abs(turn(st + float(a.sweep) - et)) <= 2 * at, "sweep-leads", lambda: "start t %r, sweep %r, end t %r; %s" % (st, a.sweep, et, desc()))
    sa, ea = float(a.get_start_angle()), float(a.get_end_angle())
    for p, g, n in ((a.start, sa, "start"), (a.end, ea, "end")):
        want = math.atan2(p[1] - ref.cy, p[0] - ref.cx)
        mon.check(abs(turn(g - want)) <= at, n + "-angle", lambda: "%s angle %r, expected %r; %s" % (n, g, want, desc()))
    mon.check(abs(turn(math.radians(float(a.theta)) - st)) <= at and 0 <= a.theta <= 360, "theta", lambda: "theta %r, start t %r" % (a.theta, st))
    mon.check(abs(float(a.delta) - math.degrees(float(a.sweep))) <= 1e-9, "delta", lambda: "delta %r, sweep %r" % (a.delta, a.sweep))
    mon.check(R.near(R.xy(a.radius), (float(a.rx), float(a.ry)), 1e-12 * big), "radius")
    mon.check(abs(turn(2 * (float(a.get_rotation()) - ref.phi))) <= 2 * at or abs(ref.rx - ref.ry) <= tol, "rotation", lambda: "rotation %r; %s" % (a.get_rotation(), desc()))
    mon.check(bool(a.is_circular()) == (a.rx == a.ry), "circular")
    own = Ref(a.center[0], a.center[1], float(a.rx), float(a.ry), float(a.get_rotation()), 0, 0)
    for n, t in (("prx", 0), ("pry", pi / 2)):
        p = R.xy(getattr(a, n))
        mon.check(R.near(p, own.at(t), 1e-9 * (big + abs(ref.cx) + abs(ref.cy)) + tol), n, lambda: "%s is %r, expected %r; %s" % (n, p, own.at(t), desc()))
    for i in range(3):
        t = r.choice([r.uniform(-2 * pi, 2 * pi), r.uniform(0, 2 * pi), r.randint(-4, 8) * pi / 4])
        p = R.xy(a.point_at_t(t))
        mon.check(R.near(p, own.at(t), 1e-9 * (big + abs(ref.cx) + abs(ref.cy))), "point_at_t", lambda: "t %r gives %r, expected %r; %s" % (t, p, own.at(t), desc()))
        back = float(a.t_at_point(a.point_at_t(t)))
        mon.check(abs(turn(back - t)) <= at, "t_at_point", lambda: "t %r gives %r and back %r; %s" % (t, p, back, desc()))
        g = r.choice([r.uniform(-2 * pi, 2 * pi), r.uniform(0, 2 * pi), r.randint(-4, 8) * pi / 4])
        q = a.point_at_angle(g)
        back = float(a.angle_at_point(q))
        mon.check(abs(turn(back - g)) <= at, "angle_at_point", lambda: "angle %r gives %r and back %r; %s" % (g, q, back, desc()))
        mon.check(own.off(R.xy(q)) <= at, "point_at_angle", lambda: "angle %r gives %r off the ellipse; %s" % (g, q, desc()))
        mon.ev("inverse")
