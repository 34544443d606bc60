"""C30: shape elements decompose into the outlines SVG prescribes."""
import io
import math
import random
import re
from math import cos, pi, sin

from .. import affine as A
from .. import dom, gen, units
from .. import ref_path as R

ID = "C30"
RULE = (
    "every shape element (rect with and without corner radii, circle, ellipse, line, polyline, polygon, path) with random attributes, as texts in any number "
    "spelling with absolute units or as numbers, loaded from text or built through the factories, below up to six ancestors with and without transforms; "
    "segments(), d() and bbox() with and without transform are compared with the outline SVG 2 chapter 10 prescribes, evaluated independently and mapped by the independently "
    "multiplied transforms; some shapes, or groups above them, are multiplied by matrices or transform texts first, in place or not; circles and ellipses also by their point, angle and arc functions. Non-trivial: a shape that is drawn; distinct by case."
)
QUICK, THOROUGH = 12000, 350000
MIN = 2000
ASSUMPTIONS = [
    "geometry is given in numbers and absolute units on the element itself; percentages and font relative units are not claimed",
    "negative sizes and radii are errors in SVG and not claimed",
    "boxes are compared with densely sampled outlines: contained to 1e-9, tight to 2e-4 of the size",
    "transformed outlines are compared where the accumulated transform has a moderate condition number",
]
TS = (0.0, 0.13, 0.5, 0.77, 1.0)
UNITS = ["", "", "", "", "px", "pt", "pc", "in", "cm", "mm"]


def num(r, mode, positive=False):
    v = gen.positive(r, mode) if positive else gen.number(r, mode)
    return v


def length(r, mode, positive=False):
    """[amount, unit]"""
    return [num(r, mode, positive), r.choice(UNITS) if r.random() < 0.5 else ""]


def transform(r):
    """[text, matrix]"""
    k = r.choice(["matrix", "translate", "scale", "rotate", "skewX", "two"])
    if k == "two":
        a, b = transform(r), transform(r)
        return [a[0] + " " + b[0], list(A.mul(b[1], a[1]))]
    if k == "matrix":
        m = gen.matrix(r)
        return ["matrix(%s)" % ",".join(repr(float(v)) for v in m), m]
    if k == "translate":
        x, y = gen.number(r, "tame"), gen.number(r, "tame")
        return ["translate(%r %r)" % (x, y), list(A.translate(x, y))]
    if k == "scale":
        x, y = [r.choice([0.5, 2, -1, 3, r.uniform(0.2, 4), r.uniform(0.2, 4), r.uniform(0.2, 4)] if r.random() < 0.94 else [0, 0.0, 1]) for _ in range(2)]
        if r.random() < 0.5:
            return ["scale(%r)" % x, list(A.scale(x, x))]
        return ["scale(%r,%r)" % (x, y), list(A.scale(x, y))]
    if k == "rotate":
        a = r.choice([30, 90, 180, -45, r.uniform(-360, 360)])
        if r.random() < 0.4:
            x, y = gen.number(r, "tame"), gen.number(r, "tame")
            return ["rotate(%r,%r,%r)" % (a, x, y), list(A.product(*A.about(A.rotate(math.radians(a)), x, y)))]
        return ["rotate(%r)" % a, list(A.rotate(math.radians(a)))]
    a = r.uniform(-60, 60)
    return ["skewX(%r)" % a, list(A.skew(math.radians(a), 0.0))]


def cases(r):
    while True:
        mode = r.choice(["int", "grid", "tame", "tame"])
        tag = r.choice(["rect", "rect", "circle", "ellipse", "line", "polyline", "polygon", "path"])
        a = {}
        c = dict(tag=tag, how=r.choice(["load", "load", "build"]), seed=r.getrandbits(32))
        opt = lambda k: r.random() < 0.85 and a.__setitem__(k, length(r, mode))
        if tag == "rect":
            opt("x"), opt("y")
            a["width"], a["height"] = length(r, mode, True), length(r, mode, True)
            for k in ("width", "height"):
                if r.random() < 0.03:
                    a[k] = [0, ""]
            if r.random() < 0.6:
                for k, s in (("rx", "width"), ("ry", "height")):
                    if r.random() < 0.7:
                        w = a[s][0]
                        a[k] = [r.choice([0, w / 2, w, w * 3, w * r.uniform(0, 0.5), w * r.uniform(0.01, 0.3)]), a[s][1] if r.random() < 0.7 else ""]
        elif tag == "circle":
            opt("cx"), opt("cy")
            a["r"] = length(r, mode, True) if r.random() < 0.95 else [0, ""]
        elif tag == "ellipse":
            opt("cx"), opt("cy")
            a["rx"], a["ry"] = [length(r, mode, True) if r.random() < 0.97 else [0, ""] for _ in range(2)]
            if r.random() < 0.2:
                a["ry"] = list(a["rx"])
        elif tag == "line":
            for k in ("x1", "y1", "x2", "y2"):
                opt(k)
        elif tag in ("polyline", "polygon"):
            c["points"] = [gen.point(r, mode) for _ in range(r.choice([0, 1, 2, 3, 5, 12]) if r.random() < 0.95 else r.choice([20, 35, 120]))]
            if c["points"] and r.random() < 0.2:
                c["points"].append(list(c["points"][0]))
            c["form"] = r.choice(["text", "text", "pairs", "flat", "points", "complex"])
            c["absent"] = not c["points"] and r.random() < 0.3
        else:
            c["prog"] = gen.program(r, n=r.choice([1, 3, 6]), mode=mode, arcs=False)
            c["absent"] = r.random() < 0.03
        c["attrs"] = a
        c["above"] = [[r.choice(["g", "g", "svg", "a", "defs", "symbol"]), transform(r) if r.random() < 0.5 else None] for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
        c["own"] = transform(r) if r.random() < 0.5 else None
        c["ppi"] = r.choice([None, None, 72, 96, 300, 25.4])
        c["matrix"] = r.random() < 0.3
        c["times"] = []
        if r.random() < 0.3:
            for _ in range(r.choice([1, 1, 2, 3])):
                tr = transform(r)
                if tr[1][0] * tr[1][3] != tr[1][1] * tr[1][2]:
                    c["times"].append([r.choice(["*=", "*=", "*", "up"]), r.choice(["text", "matrix"]), tr])
        yield c


class Piece:
    """One expected segment: kind, and its point at t."""

    def __init__(self, kind, point):
        self.kind, self.point = kind, point


def line(kind, p, q):
    return Piece(kind, lambda t: (p[0] + (q[0] - p[0]) * t, p[1] + (q[1] - p[1]) * t))


def quarter(cx, cy, rx, ry, start, turn=pi / 2):
    return Piece("Arc", lambda t: (cx + rx * cos(start + turn * t), cy + ry * sin(start + turn * t)))


def outline(c, v):
    """SVG 2 chapter 10."""
    tag = c["tag"]
    if tag == "rect":
        x, y, w, h = v.get("x", 0.0), v.get("y", 0.0), v["width"], v["height"]
        if w == 0 or h == 0:
            return []
        rx, ry = v.get("rx"), v.get("ry")
        rx, ry = (ry if rx is None else rx), (rx if ry is None else ry)
        rx, ry = min(rx or 0.0, w / 2), min(ry or 0.0, h / 2)
        if rx == 0 or ry == 0:
            p = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
            return [line("Move", p[0], p[0])] + [line("Line", p[i], p[i + 1]) for i in range(3)] + [line("Close", p[3], p[0])]
        X, Y = x + w, y + h
        return [
            line("Move", (x + rx, y), (x + rx, y)),
            line("Line", (x + rx, y), (X - rx, y)),
            quarter(X - rx, y + ry, rx, ry, -pi / 2),
            line("Line", (X, y + ry), (X, Y - ry)),
            quarter(X - rx, Y - ry, rx, ry, 0),
            line("Line", (X - rx, Y), (x + rx, Y)),
            quarter(x + rx, Y - ry, rx, ry, pi / 2),
            line("Line", (x, Y - ry), (x, y + ry)),
            quarter(x + rx, y + ry, rx, ry, pi),
            line("Close", (x + rx, y), (x + rx, y)),
        ]
    if tag in ("circle", "ellipse"):
        cx, cy = v.get("cx", 0.0), v.get("cy", 0.0)
        rx, ry = (v["r"], v["r"]) if tag == "circle" else (v["rx"], v["ry"])
        if rx == 0 or ry == 0:
            return []
        p = (cx + rx, cy)
        return [line("Move", p, p)] + [quarter(cx, cy, rx, ry, i * pi / 2) for i in range(4)] + [line("Close", p, p)]
    if tag == "line":
        p, q = (v.get("x1", 0.0), v.get("y1", 0.0)), (v.get("x2", 0.0), v.get("y2", 0.0))
        return [line("Move", p, p), line("Line", p, q)]
    if tag in ("polyline", "polygon"):
        ps = [tuple(p) for p in c["points"]]
        if not ps:
            return []
        out = [line("Move", ps[0], ps[0])] + [line("Line", p, q) for p, q in zip(ps, ps[1:])]
        return out + ([line("Close", ps[-1], ps[0])] if tag == "polygon" else [])
    if c["absent"]:
        return []
    return [Piece(s.kind, s.point) for s in R.interpret(c["prog"])]


def run(c, mon):
    from svgio import nodes
    from svgio.basic import Matrix, Point
    from svgio.path import Path

    r = random.Random(c["seed"])
    ppi = c["ppi"] or 96.0
    tag = c["tag"]
    v, rel = {}, 1e-12
    for k, (amount, unit) in c["attrs"].items():
        v[k], tol = units.pixels(amount, unit, dict(ppi=ppi))
        rel = max(rel, 4 * units.REL[unit])
    attrs = {}
    build = c["how"] == "build"
    for k, (amount, unit) in c["attrs"].items():
        attrs[k] = amount if build and unit == "" and r.random() < 0.7 else gen.spell_number(r, amount, r.choice([0, 1])) + unit
    if tag in ("polyline", "polygon") and not c["absent"]:
        form = c["form"] if build else "text"
        ps = c["points"]
        if form == "text":
            sep = r.choice([" ", ",", ", ", "\n"])
            attrs["points"] = r.choice(["", " "]) + r.choice([" ", ", ", "\n "]).join(sep.join(gen.spell_number(r, x, 0) for x in p) for p in ps)
        elif form == "flat":
            attrs["points"] = [x for p in ps for x in p]
        else:
            one = dict(pairs=tuple, points=lambda p: Point(*p), complex=lambda p: complex(*p))[form]
            attrs["points"] = [one(p) for p in ps]
        mon.feat("points:" + form)
    elif tag == "path" and not c["absent"]:
        attrs["d"] = gen.plain(c["prog"])
    doc = nodes.Document() if build else None
    if build:
        if c["ppi"]:
            doc.pixels_per_inch = c["ppi"]
        at = doc.svg()
        for t, tr in c["above"]:
            kw = {} if tr is None else {"transform": Matrix(*tr[1]) if c["matrix"] else tr[0]}
            at = getattr(at, t)(**kw)
        if c["own"]:
            attrs["transform"] = Matrix(*c["own"][1]) if c["matrix"] else c["own"][0]
        given = dict(attrs)
        node = getattr(at, tag)(**attrs)
    else:
        if c["own"]:
            attrs["transform"] = c["own"][0]
        model = dict(ns="", tag=tag, attrs=attrs, text="", kids=[], tail="")
        for t, tr in reversed(c["above"]):
            model = dict(ns="", tag=t, attrs={} if tr is None else {"transform": tr[0]}, text="", kids=[model], tail="")
        model = dict(ns="", tag="svg", attrs={}, text="", kids=[model], tail="")
        doc = nodes.Document(io.StringIO(dom.write(r, model, True)))
        if c["ppi"]:
            doc.pixels_per_inch = c["ppi"]
        node = doc[0]
        for _ in c["above"]:
            node = node[0]
        node = node[0]
        given = dict(attrs)
    chain = [[c["own"]]] + [[x[1]] for x in reversed(c["above"])]
    history = c["seed"] % 3
    if history == 0:
        earlier(node, doc, c, mon)
    for op, form, tr in c.get("times", []):
        if history == 1:
            measure(node, tag)
        node = multiply(c, node, chain, op, form, tr, mon)
        given = dict(node.attributes)
    chain = [tr for level in chain for tr in level if tr is not None]
    m = A.IDENT
    for tr in chain:
        m = A.mul(m, tr[1])
    want = outline(c, v)
    desc = lambda: "%s %r, transforms %r, multiplied %r, ppi %r" % (tag, attrs, chain, c.get("times"), ppi)
    size = max([1.0] + [abs(x) for x in v.values()] + [abs(x) for p in want for t in (0, 0.5, 1) for x in p.point(t)])
    mon.feat("%s:%s" % (tag, c["how"]), "%s:%d" % (tag, len(want)), "depth:%d" % len(c["above"]))
    if tag == "rect" and all(isinstance(attrs.get(k), (int, float)) or str(attrs.get(k)).strip()[-1:].isdigit() for k in ("x", "y")):
        q = node.position
        mon.check(R.near(R.xy(q), (v["x"], v["y"]), 1e-9 * size), "position", lambda: "%r, expected (%r, %r); %s" % (q, v["x"], v["y"], desc()))
        mon.ev("position")
    if want:
        mon.nontrivial()
    mon.state(tag, len(want), sorted(c["attrs"]), [x[1] is not None for x in c["above"]])
    ok = gen.matrix_ok(m, 300) or all(p.kind != "Arc" for p in want)
    if want and m[0] * m[3] == m[1] * m[2]:
        mon.ev("flattened:" + ("checked" if ok else "skipped"))
    for transformed in (False, True):
        if transformed and not ok:
            mon.ev("transform-too-ill-conditioned")
            continue
        n = m if transformed else A.IDENT
        lin = max(map(abs, n[:4]))
        parts = max(1.0, *[max(map(abs, t[1][:4])) for t in chain] or [1.0])
        sc = max(1.0, size * max(1.0, lin) * parts, abs(n[4]), abs(n[5])) if transformed else size
        if transformed:
            for t in chain:
                sc = max(sc, max(abs(t[1][4]), abs(t[1][5])) * parts ** 2)
        tol = (1e-8 if transformed else 1e-9) * sc + rel * size * max(1.0, lin)
        arc_tol = tol
        if transformed:
            arc_tol = 1e-7 * sc * 10 + tol
        segs = node.segments() if transformed and r.random() < 0.5 else node.segments(transformed=transformed)
        segs = list(segs)
        where = "segments:%s:%s" % (tag, "transformed" if transformed else "plain")
        mon.check([type(s).__name__ for s in segs] == [p.kind for p in want], where + ":kinds", lambda: "%r, expected %r; %s" % (segs, [p.kind for p in want], desc()))
        for i, (s, p) in enumerate(zip(segs, want)):
            for t in TS:
                if p.kind == "Move" and t != 1:
                    continue
                q, w = R.xy(s.point(t)), A.apply(n, p.point(t))
                tl = tol if t in (0, 1) or p.kind != "Arc" else arc_tol
                mon.check(R.near(q, w, tl), where, lambda: "segment %d %s at %g is %r, expected %r (tolerance %g); %s" % (i, p.kind, t, q, w, tl, desc()))
            mon.ev("segment:" + p.kind)
        # connected
        for a, b in zip(segs, segs[1:]):
            mon.check(R.near(R.xy(a.end), R.xy(b.start), tol), where + ":connected", lambda: "%r then %r; %s" % (a, b, desc()))
        # d() of the shape is that outline (the path element's d is its attribute)
        if tag != "path":
            for relative in (False, True):
                text = node.d(relative=relative, transformed=transformed)
                mon.check(isinstance(text, str) and (text == "") == (not segs), "d:%s" % tag, lambda: "%r; %s" % (text, desc()))
                R.same_segments(mon, segs, Path(text), "d:%s" % tag, arc_rel=2e-6)
                low = [ch for ch in text if ch.isalpha() and ch not in "eE"]
                mon.check(all(ch.islower() == relative for ch in low), "d:%s:case" % tag, lambda: "%r; %s" % (text, desc()))
            if transformed:
                mon.check(node.d() == node.d(relative=False, transformed=True) and node.d(True) == node.d(relative=True, transformed=True), "d:%s:defaults" % tag, lambda: "%r; %s" % (node.d(), desc()))
            mon.ev("d")
        # box
        box = node.bbox(transformed=transformed)
        if transformed:
            mon.check(node.bbox() == box, "bbox:%s:defaults" % tag, lambda: "%r and %r; %s" % (node.bbox(), box, desc()))
        drawn = [p for p in want if p.kind != "Move"]
        where = "bbox:%s:%s" % (tag, "transformed" if transformed else "plain")
        if not drawn:
            mon.check(box is None, where + ":none", lambda: "%r; %s" % (box, desc()))
            continue
        pts = [A.apply(n, p.point(i / 200)) for p in drawn for i in range(201)]
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        real = (min(xs), min(ys), max(xs), max(ys))
        mon.check(box is not None and len(box) == 4, where + ":form", lambda: "%r; %s" % (box, desc()))
        t = arc_tol if any(p.kind == "Arc" for p in drawn) else tol
        inside = box[0] <= real[0] + t and box[1] <= real[1] + t and box[2] >= real[2] - t and box[3] >= real[3] - t
        mon.check(inside, where + ":contains", lambda: "%r, the outline covers %r; %s" % (box, real, desc()))
        ext = max(real[2] - real[0], real[3] - real[1])
        for p in drawn:
            if p.kind.endswith("Bezier"):
                ext = max(ext, sc)
        mon.check(all(abs(a - b) <= t + 2e-4 * ext for a, b in zip(box, real)), where + ":tight", lambda: "%r, the outline covers %r; %s" % (box, real, desc()))
        mon.ev("bbox")
    if tag in ("circle", "ellipse") and want:
        round_shape(c, v, node, mon, r, size, rel, desc)
    now = dict(node.attributes)
    mon.check(now.keys() == given.keys() and all(now[k] is given[k] or now[k] == given[k] for k in now), "reading-changes", lambda: "%r; %s" % (now, desc()))


def measure(node, tag):
    for kw in ({}, {"transformed": False}, {"transformed": True}):
        node.bbox(**kw)
        list(node.segments(**kw))
        if tag != "path":
            node.d(**kw)
    for name in ("center", "x", "width", "rx", "r", "cx", "x1", "points", "transform"):
        getattr(node, name, None)


def earlier(node, doc, c, mon):
    """Gives the shape, its ancestors and the document other values, measures it, and puts everything back."""
    other = dict(points="1,2 3,7 -4,5", d="M1,2 L8,3 L5,5", transform="translate(5,6) scale(2)")
    changed = []
    at = node
    while at is not None and at is not doc:
        for k in ("transform", "points", "d") + tuple(c["attrs"] if at is node else ()):
            if k in at.attributes:
                changed.append((at, k, at.attributes[k]))
                old = at.attributes[k]
                if k == "points" and isinstance(old, str) and old.strip():
                    head = re.match("[^0-9]*[0-9]", old).end()
                    at.attributes[k] = old[: head - 1] + str((int(old[head - 1]) + 3) % 10) + old[head:]
                else:
                    at.attributes[k] = other.get(k, "7")
        at = at.parent
    ppi = doc.pixels_per_inch
    doc.pixels_per_inch = 50
    measure(node, c["tag"])
    doc.pixels_per_inch = ppi
    measure(node, c["tag"])
    for at, k, value in changed:
        at.attributes[k] = value
    mon.ev("changed-between")


def multiply(c, node, chain, op, form, tr, mon):
    """Multiplies the shape, in place or not, or one of its ancestors; chain holds the transforms of each, the shape's first."""
    from svgio.basic import Matrix

    by = tr[0] if form == "text" else Matrix(*tr[1])
    level, target = 0, node
    if op == "up":
        for i, (tag, _) in enumerate(reversed(c["above"])):
            target = target.parent
            if tag in ("g", "svg"):
                level = i + 1
                break
        else:
            target = node
    before = dict(target.attributes)
    kids = list(target)
    if op == "*":
        out = target * by
        mon.check(out is not target and type(out) is type(target), "times:type", lambda: repr(out))
        mon.check(target.attributes == before and out.attributes is not target.attributes, "times:operand-changed", lambda: "%r from %r" % (target.attributes, before))
        mon.check(out.parent is target.parent and out.document is target.document, "times:place", lambda: repr(out))
        node = out
    else:
        out = target
        out *= by
        mon.check(out is target, "times:identity", lambda: repr(out))
    mon.check(len(out) == len(kids) and all(a is b for a, b in zip(out, kids)), "times:children", lambda: repr(out))
    drop = lambda d: {k: v for k, v in d.items() if k != "transform"}
    mon.check(drop(out.attributes) == drop(before), "times:other-attributes", lambda: "%r from %r" % (out.attributes, before))
    if form == "matrix":
        mon.check(tuple(by) == tuple(Matrix(*tr[1])), "times:matrix-changed", lambda: repr(by))
    chain[level].append(tr)
    mon.ev("times:" + op)
    mon.feat("times:%s:%s" % (op, form))
    return node


def round_shape(c, v, node, mon, r, size, rel, desc):
    """The parametric view of circles and ellipses, in their own coordinates."""
    cx, cy = v.get("cx", 0.0), v.get("cy", 0.0)
    rx, ry = (v["r"], v["r"]) if c["tag"] == "circle" else (v["rx"], v["ry"])
    tol = 1e-9 * size + rel * size
    if min(rx, ry) < 1e-3 * size or max(rx, ry) > 50 * min(rx, ry):
        mon.ev("round-too-ill-conditioned")
        return
    center = R.xy(node.center)
    mon.check(R.near(center, (cx, cy), tol), "center", lambda: "%r; %s" % (center, desc()))
    at = lambda t: (cx + rx * cos(t), cy + ry * sin(t))
    turn = 2 * pi
    for _ in range(4):
        t = r.choice([r.uniform(0, turn), r.choice([0, 0.25, 0.5, 0.75, 0.125]) * turn, r.uniform(-turn, 2 * turn)])
        p = R.xy(node.point_at_t(t))
        mon.check(R.near(p, at(t), tol), "point_at_t", lambda: "at %r is %r, expected %r; %s" % (t, p, at(t), desc()))
        q = R.xy(node.point(t / turn))
        mon.check(R.near(q, at(t), tol), "point", lambda: "at %r is %r, expected %r; %s" % (t / turn, q, at(t), desc()))
        back = float(node.t_at_point(node.point_at_t(t)))
        mon.check(R.near(at(back), p, 10 * tol * max(rx, ry) / min(rx, ry)), "t_at_point", lambda: "of the point at %r is %r; %s" % (t, back, desc()))
        # a point off the ellipse: the parameter of the point of the ellipse in that direction
        a = math.atan2(p[1] - cy, p[0] - cx)
        ang = float(node.angle_at_point((p[0], p[1])) if r.random() < 0.5 else node.angle_at_point(node.point_at_t(t)))
        mon.check(abs(math.remainder(ang - a, turn)) <= 1e-9 + 10 * tol / min(rx, ry), "angle_at_point", lambda: "%r, expected %r; %s" % (ang, a, desc()))
        s = r.choice([t, a, a + turn, -a])
        w = R.xy(node.point_at_angle(s))
        d = math.atan2(w[1] - cy, w[0] - cx)
        on = ((w[0] - cx) / rx) ** 2 + ((w[1] - cy) / ry) ** 2
        mon.check(abs(math.remainder(d - s, turn)) <= 1e-9 + 10 * tol / min(rx, ry) and abs(on - 1) <= 1e-9 + 20 * tol / min(rx, ry), "point_at_angle", lambda: "%r is %r; %s" % (s, w, desc()))
        mon.ev("round")
    u = node.unit_matrix()
    t = r.uniform(0, turn)
    p = A.apply(A.of(u), (cos(t), sin(t)))
    mon.check(R.near(p, at(t), tol), "unit_matrix", lambda: "maps the unit circle at %r to %r, expected %r; %s" % (t, p, at(t), desc()))
    t0 = r.uniform(-turn, turn)
    d = r.choice([-1, 1]) * r.uniform(0.05, turn * 0.98)
    arc = node.arc_t(t0, t0 + d)
    for f in (0, 0.3, 0.5, 0.9, 1):
        p = R.xy(arc.point(f))
        mon.check(R.near(p, at(t0 + f * d), 100 * tol), "arc_t", lambda: "%r to %r at %g is %r, expected %r; %s" % (t0, t0 + d, f, p, at(t0 + f * d), desc()))
    a0, a1 = r.uniform(-pi, pi), r.uniform(-pi, pi)
    if 0.05 < abs(a0 - a1) < turn - 0.05:
        ccw = r.choice([None, True, False])
        arc = node.arc_angle(a0, a1, ccw) if ccw is not None or r.random() < 0.5 else node.arc_angle(a0, a1)
        down = a0 > a1 if ccw is None else ccw
        e0, e1 = math.atan2(sin(a0) / ry, cos(a0) / rx), math.atan2(sin(a1) / ry, cos(a1) / rx)
        d = (e1 - e0) % turn
        if down:
            d -= turn
        for f in (0, 0.3, 0.5, 0.9, 1):
            p = R.xy(arc.point(f))
            w = at(e0 + f * d)
            mon.check(R.near(p, w, 100 * tol), "arc_angle", lambda: "%r to %r ccw=%r at %g is %r, expected %r; %s" % (a0, a1, ccw, f, p, w, desc()))
        mon.feat("arc_angle:%s" % ccw)
