"""C27: copies are independent, non-mutating operations do not mutate, equality is an equivalence that sees every difference."""
import copy
import math
import operator
import random

from .. import gen, segs

ID = "C27"
RULE = (
    "points, matrices, lengths, colours, angles, view boxes, every segment kind, paths and subpaths; one copying operation each (copy, construction from the value, every binary operator with a random "
    "operand), after which every part of the result is changed while the sources are watched, and the other way round; or a run of up to 10 read-only calls with "
    "deep snapshots of all operands around each; or equality of pairs differing in one place or in kind. Non-trivial: always; distinct by case."
)
QUICK, THOROUGH = 64000, 2000000
MIN = 5000
ASSUMPTIONS = [
    "items of a path are the path's own segments (indexing, slicing and iterating give live objects)",
    "equality is claimed between values of one type (paths, subpaths and path texts count as one)",
    "Matrix.transform_point/transform_vector write into the vector given, and += of a path with a segment takes that segment: neither is claimed",
]
KINDS = ["point", "matrix", "length", "color", "angle", "viewbox"] + ["segment"] * 6 + ["path"] * 5 + ["subpath"] * 4
UNITS = ["", "px", "mm", "cm", "in", "pt", "pc", "%"]


def spec(r, kind):
    mode = r.choice(["grid", "int", "tame"])
    if kind == "point":
        return gen.point(r, mode)
    if kind == "matrix":
        m = gen.matrix(r)
        return m + [r.choice(["", "", "", "mm", "in"])]
    if kind == "length":
        return [r.choice([1, 2.5, -3, 10, 96]), r.choice(UNITS)]
    if kind == "color":
        return r.choice([r.getrandbits(32), r.getrandbits(24) << 8 | 255, r.getrandbits(24) << 8, None])
    if kind == "angle":
        return r.uniform(-7, 7)
    if kind == "viewbox":
        return [r.randint(-5, 5), r.randint(-5, 5), r.randint(1, 9), r.randint(1, 9), r.choice([None, "none", "xMinYMax slice"])]
    if kind == "segment":
        s = segs.spec(r, mode, kinds="mlcqCaA")
        return [s, r.random() < 0.4, r.random() < 0.5]
    text = gen.plain(gen.program(r, n=r.choice([1, 2, 3, 5, 8]), mode=mode))
    return [text, r.random()]


def cases(r):
    while True:
        kind = r.choice(KINDS)
        what = r.choice(["alias", "alias", "read", "equal"])
        yield dict(kind=kind, a=spec(r, kind), b=spec(r, kind), m=gen.matrix(r), p=gen.point(r, "tame"), q=spec(r, "path"), s=spec(r, "segment"), what=what, seed=r.getrandbits(32))


def make(kind, s):
    from svgio.basic import Angle, Color, Length, Matrix, Point, Viewbox
    from svgio.path import Path

    if kind == "point":
        return Point(*s)
    if kind == "matrix":
        m = Matrix(*s[:6])
        if s[6]:
            m.e, m.f = Length(s[4], s[6]), Length(s[5], s[6])
        return m
    if kind == "length":
        return Length(*s)
    if kind == "color":
        c = Color()
        if s is None:
            return Color("none")
        c.rgba = s
        return c
    if kind == "angle":
        return Angle(s)
    if kind == "viewbox":
        return Viewbox("%d %d %d %d" % tuple(s[:4]), s[4])
    if kind == "segment":
        g = segs.make(s[0])
        g.relative = s[1]
        if s[0][0] in ("quad", "cubic"):
            g.smooth = s[2]
        return g
    p = Path(s[0])
    if kind == "path":
        return p
    n = p.count_subpaths()
    return p.subpath(int(s[1] * n))


def snap(v):
    """Everything observable of a value, as plain data."""
    t = type(v).__name__
    if v is None or isinstance(v, (str, bool, complex)):
        return v
    if isinstance(v, int):
        return ("float", float(v))
    if t == "Point":
        return ("Point", float(v.x), float(v.y))
    if t == "Matrix":
        return ("Matrix",) + tuple(snap(x) for x in (v.a, v.b, v.c, v.d, v.e, v.f))
    if t == "Length":
        return ("Length", v.amount, v.units)
    if t == "Color":
        return ("Color", v.value)
    if isinstance(v, float):
        return (t, float(v))
    if t == "Viewbox":
        return ("Viewbox", v.x, v.y, v.width, v.height, v.preserve_aspect_ratio)
    if isinstance(v, (list, tuple)):
        return (t,) + tuple(snap(x) for x in v)
    if t == "Path":
        return ("Path",) + tuple(snap(x) for x in v)
    if t == "Subpath":
        return ("Subpath",) + tuple(snap(x) for x in v)
    if t == "Arc":
        return (t, v.relative) + tuple(snap(getattr(v, k)) for k in ("start", "end", "center", "prx", "pry")) + (v.sweep,)
    if t == "CubicBezier":
        return (t, v.relative, v.smooth) + tuple(snap(getattr(v, k)) for k in ("start", "control1", "control2", "end"))
    if t == "QuadraticBezier":
        return (t, v.relative, v.smooth) + tuple(snap(getattr(v, k)) for k in ("start", "control", "end"))
    if t in ("Move", "Line", "Close"):
        return (t, v.relative, snap(v.start), snap(v.end))
    if t == "ndarray":
        return ("array", v.tolist())
    raise TypeError(t)


def shake(v, r):
    """Changes every part of a value in place, through attributes and in-place operators."""
    from svgio.basic import Length, Matrix, Point

    t = type(v).__name__
    if t == "Point":
        k = r.randint(0, 4)
        if k == 0:
            v.x, v.y = v.x + 3.5, v.y - 2.5
        elif k == 1:
            v += (3, 4)
        elif k == 2:
            v *= Matrix(2, 1, 0, 3, 5, 6)
        elif k == 3:
            v[0] += 7
            v[1] += 9
        else:
            v -= Point(1, 2)
    elif t == "Matrix":
        if isinstance(v.e, Length):
            v.e += Length(3, v.e.units)
            v.f *= 2
            v.f += Length(1, v.f.units)
            v.a += 1
        else:
            k = r.randint(0, 4)
            if k == 0:
                v.post_translate(3, 4)
                v.post_scale(2, 3)
            elif k == 1:
                v.a += 1
                v.b += 2
                v.c -= 1
                v.d += 5
                v.e += 3
                v.f -= 1
            elif k == 2:
                v *= Matrix(2, 1, 0, 3, 5, 6)
            elif k == 3:
                v.reset()
                v.pre_translate(99, 98)
            else:
                for i in range(6):
                    v[i] = v[i] + 1
    elif t == "Length":
        if r.random() < 0.5:
            v *= 3
            v += Length(1, v.units)
        else:
            v.amount += 5
    elif t == "Color":
        if v.value is None:
            v.value = 5
        elif r.random() < 0.5:
            v.red = 255 - v.red
            v.opacity = 0.25 if v.alpha > 128 else 0.75
        else:
            v.rgba = 0x12345678 if v.value != 0x12345678 else 0x12345679
    elif t == "Viewbox":
        v.x += 1
        v.y += 1
        v.width += 1
        v.height += 1
        v.preserve_aspect_ratio = "xMaxYMax"
    elif t in ("Path", "Subpath"):
        k = r.randint(0, 5)
        every = list(v)
        for s in every:
            shake(s, r)
        if k == 0:
            v *= Matrix(2, 1, 0, 3, 5, 6)
        elif k == 1:
            v += "L 77,78"
        elif k == 2 and len(v):
            del v[0]
        elif k == 3 and len(v):
            from svgio.path import Line

            v[-1] = Line((5, 5), (66, 66))
        elif k == 4 and t == "Path":
            v.line((55, 56))
        elif k == 5 and t == "Path":
            v.clear()
    elif isinstance(v, (list, tuple)):
        for x in v:
            shake(x, r)
    elif t in ("Move", "Line", "Close", "QuadraticBezier", "CubicBezier", "Arc"):
        k = r.randint(0, 2)
        names = {"Arc": ["center", "prx", "pry"], "CubicBezier": ["control1", "control2"], "QuadraticBezier": ["control"]}.get(t, [])
        if k == 0:
            v *= Matrix(2, 1, 0, 3, 5, 6)
        for n in ["start", "end"] + names:
            x = getattr(v, n)
            if x is not None:
                if k == 1 and r.random() < 0.3:
                    setattr(v, n, Point(123, 321))
                else:
                    shake(x, r)
        if t == "Arc" and r.random() < 0.5:
            v.sweep = -v.sweep
        v.relative = not v.relative
        if t in ("QuadraticBezier", "CubicBezier"):
            v.smooth = not v.smooth


def operators(kind):
    """name -> (function of (value, env), operands used). env: b same kind, m matrix, mt transform text, p point, q path, s segment, ps path text."""
    from svgio.basic import Color, Length, Matrix, Point, Viewbox
    from svgio.path import Path

    out = {"copy": lambda v, e: copy.copy(v), "deepcopy": lambda v, e: copy.deepcopy(v)}
    if kind == "point":
        out.update({
            "Point": lambda v, e: Point(v), "+": lambda v, e: v + e["b"], "-": lambda v, e: v - e["b"], "*m": lambda v, e: v * e["m"], "*mt": lambda v, e: v * e["mt"],
            "*2": lambda v, e: v * 2, "+tuple": lambda v, e: v + (1, 2), "tuple+": lambda v, e: (1, 2) + v, "tuple-": lambda v, e: (1, 2) - v, "+0": lambda v, e: v + 0, "*1": lambda v, e: v * 1,
            "conjugate": lambda v, e: v.conjugate(), "reflected": lambda v, e: v.reflected_across(e["b"]), "towards": lambda v, e: Point.towards(v, e["b"], 0.25), "polar": lambda v, e: Point.polar(v, 1.0, 2.0),
            "space": lambda v, e: e["m"].point_in_matrix_space(v), "inverse": lambda v, e: e["m"].point_in_inverse_space(v), "*identity": lambda v, e: v * Matrix(),
        })
    elif kind == "matrix":
        out.update({
            "Matrix": lambda v, e: Matrix(v), "*": lambda v, e: v * e["m"], "@": lambda v, e: v @ e["m"], "*text": lambda v, e: v * e["mt"], "text*": lambda v, e: e["mt"] * v, "*identity": lambda v, e: v * Matrix(),
        })
    elif kind == "length":
        out.update({
            "Length": lambda v, e: Length(str(v)), "+": lambda v, e: v + Length(2, v.units), "-": lambda v, e: v - Length(2, v.units), "neg": lambda v, e: -v, "abs": lambda v, e: abs(v), "*2": lambda v, e: v * 2, "2*": lambda v, e: 2 * v, "*1": lambda v, e: v * 1, "+0": lambda v, e: v + Length(0, v.units),
        })
    elif kind == "color":
        out.update({"Color": lambda v, e: Color(v), "abs": lambda v, e: abs(v)})
    elif kind == "viewbox":
        out.update({"Viewbox": lambda v, e: Viewbox(v)})
    elif kind == "segment":
        out.update({
            "*m": lambda v, e: v * e["m"], "*mt": lambda v, e: v * e["mt"], "mt*": lambda v, e: e["mt"] * v, "*identity": lambda v, e: v * Matrix(), "+seg": lambda v, e: v + e["b"], "+text": lambda v, e: v + "L 1,2",
            "text+": lambda v, e: e["qt"] + Path(v) if False else Path(e["qt"]) + v, "path+": lambda v, e: e["q"] + v, "+path": lambda v, e: v + e["q"],
        })
        out["curves"] = lambda v, e: [list(v.as_cubic_curves(3)), list(v.as_quad_curves(3))] if type(v).__name__ == "Arc" else copy.copy(v)
    elif kind == "path":
        out.update({
            "Path": lambda v, e: Path(v), "*m": lambda v, e: v * e["m"], "@m": lambda v, e: v @ e["m"], "*mt": lambda v, e: v * e["mt"], "mt*": lambda v, e: e["mt"] * v, "*identity": lambda v, e: v * Matrix(),
            "+=path": lambda v, e: operator.iadd(copy.copy(e["b"]), v), "sub+=path": lambda v, e: operator.iadd(copy.copy(e["b"]).subpath(0), v), "new+=path": lambda v, e: operator.iadd(Path(), v),
            "+path": lambda v, e: v + e["b"], "+seg": lambda v, e: v + e["s"], "+text": lambda v, e: v + e["qt"], "text+": lambda v, e: e["qt"] + v, "seg+": lambda v, e: e["s"] + v, "+sub": lambda v, e: v + e["b"].subpath(0), "+self": lambda v, e: v + v,
        })
    elif kind == "subpath":
        out.update({
            "Path": lambda v, e: Path(v), "*m": lambda v, e: v * e["m"], "*mt": lambda v, e: v * e["mt"], "mt*": lambda v, e: e["mt"] * v, "+path": lambda v, e: v + e["q"], "+seg": lambda v, e: v + e["s"], "+text": lambda v, e: v + e["qt"],
            "text+": lambda v, e: e["qt"] + v, "seg+": lambda v, e: e["s"] + v, "path+": lambda v, e: e["q"] + v, "path+=": lambda v, e: operator.iadd(copy.copy(e["q"]), v), "new+=": lambda v, e: operator.iadd(Path(), v),
        })
    return out


COPIES = ("copy", "deepcopy", "Point", "Matrix", "Color", "Viewbox", "Path")


def readers(kind, v, e, r):
    """Read-only calls as (name, function)."""
    from svgio.basic import Angle, Color, Matrix, Point
    from svgio.path import Path

    pos = [r.random() for _ in range(3)] + [0.0, 1.0]
    e["pos"] = pos
    out = [("str", lambda: str(v)), ("repr", lambda: repr(v)), ("==", lambda: v == e["b"]), ("!=", lambda: v != e["b"]), ("==self", lambda: v == v)]
    if kind == "point":
        out += [
            ("abs", lambda: abs(v)), ("complex", lambda: complex(v)), ("distance", lambda: v.distance_to(e["b"])), ("angle", lambda: v.angle_to(e["b"])), ("hull", lambda: list(Point.convex_hull([v, e["b"], e["p"], v]))),
            ("orientation", lambda: Point.orientation(v, e["b"], e["p"])), ("item", lambda: (v[0], v[1], len(v), list(v), v.real, v.imag)), ("hash", lambda: hash(v)), ("Distance", lambda: Point.distance(v, e["b"])),
        ]
    elif kind == "matrix":
        out += [
            ("determinant", lambda: v.determinant), ("values", lambda: (v.value_trans_x(), v.value_trans_y(), v.value_scale_x(), v.value_scale_y(), v.value_skew_x(), v.value_skew_y())),
            ("vector", lambda: v.vector()), ("identity", lambda: v.is_identity()), ("item", lambda: (len(v), [v[i] for i in range(6)])),
        ]
        if type(v.e).__name__ != "Length":
            out += [("multiply", lambda: Matrix.matrix_multiply(v, e["m"])), ("space", lambda: v.point_in_matrix_space(e["p"]))]
    elif kind == "length":
        out += [
            ("value", lambda: v.value(ppi=96, relative_length=100)), ("mm", lambda: v.to_mm(ppi=96, relative_length="10in")), ("cm", lambda: v.to_cm(ppi=96, relative_length="10in")), ("inch", lambda: v.to_inch(ppi=96, relative_length="10in")), ("px", lambda: v.in_pixels()), ("in", lambda: v.in_inches()),
            ("<", lambda: v.units == e["b"].units and v < e["b"]), ("ratio", lambda: v.units == e["b"].units and e["b"].amount and v / e["b"]), ("units", lambda: v.value_in_units),
        ]
    elif kind == "color":
        if v.value is not None and e["b"].value is not None:
            out += [
                ("channels", lambda: (v.red, v.green, v.blue, v.alpha, v.opacity, v.hex, v.hexa, v.rgb, v.rgba, v.argb)), ("hsl", lambda: (v.hue, v.saturation, v.lightness, v.hsl)), ("light", lambda: (v.intensity, v.brightness, v.blackness, v.luminance, v.luma)),
                ("over", lambda: Color.over(v, e["b"])), ("under", lambda: Color.over(e["b"], v)), ("distance", lambda: (v.distance_to(e["b"]), Color.distance_sq(v, e["b"]))), ("int", lambda: int(v)), ("blended", lambda: copy.copy(v).blend(e["b"])), ("blended2", lambda: copy.copy(v).blend(e["b"], 0.5)),
            ]
    elif kind == "angle":
        out += [("units", lambda: (v.as_degrees, v.as_radians, v.as_gradians, v.as_turns, v.as_positive_degrees, v.is_orthogonal)), ("normalized", lambda: v.normalized())]
    elif kind == "viewbox":
        box = type("E", (), dict(x=0, y=0, width=100, height=50))()
        out = [("str", lambda: str(v)), ("transform", lambda: v.transform(box)), ("fields", lambda: (v.x, v.width))]
    elif kind == "segment":
        out += [("iter", lambda: list(v)), ("len", lambda: [v[i] for i in range(len(v))]), ("d", lambda: v.d(e["p"], relative=True)), ("d2", lambda: v.d(smooth=False)), ("*m", lambda: v * e["m"])]
        if type(v).__name__ != "Move":
            out += [
                ("point", lambda: v.point(pos[0])), ("npoint", lambda: v.npoint(pos)), ("length", lambda: v.length(error=1e-3)), ("bbox", lambda: v.bbox()),
            ]
        if type(v).__name__ in ("Line", "Close"):
            out += [("closest", lambda: v.closest_segment_point(e["p"]))]
        if type(v).__name__ in ("QuadraticBezier", "CubicBezier"):
            out += [("smooth", lambda: v.is_smooth_from(e["b"]))]
        if type(v).__name__ == "Arc" and v.rx > 0 and v.ry > 0:
            out += [
                ("arc", lambda: (v.theta, v.delta, v.rx, v.ry, v.get_rotation(), v.get_start_angle(), v.get_end_angle(), v.get_start_t(), v.get_end_t())), ("at", lambda: (v.point_at_angle(0.3), v.point_at_t(0.3), v.angle_at_point(e["p"]), v.t_at_point(e["p"]))),
                ("cubics", lambda: list(v.as_cubic_curves())), ("quads", lambda: list(v.as_quad_curves())), ("circular", lambda: v.is_circular()),
            ]
    else:
        n = len(v)
        i = r.randint(-n, n - 1)
        out += [
            ("len", lambda: len(v)), ("item", lambda: v[i]), ("slice", lambda: v[r.choice([None, 0, 1]) : i : r.choice([1, 2, -1])]), ("iter", lambda: [list(v), list(v)]), ("d", lambda: [v.d(relative=x, smooth=y) for x in (None, True, False) for y in (None, True, False)]),
            ("==text", lambda: v == e["qt"]), ("segments", lambda: list(v.segments())), ("+", lambda: v + e["q"]), ("*", lambda: v * e["m"]),
        ]
        if kind == "path":
            out += [
                ("length", lambda: v.length(error=1e-3)), ("point", lambda: v.point(pos[0], error=1e-3)), ("npoint", lambda: v.npoint(pos, error=1e-3)), ("subpaths", lambda: [str(s) for s in v.as_subpaths()]), ("count", lambda: v.count_subpaths()), ("sub", lambda: v.subpath(0).bbox()),
                ("points", lambda: list(v.as_points())), ("ends", lambda: (v.first_point, v.current_point, v.z_point, v.smooth_point)), ("in", lambda: (e["s"] in v, v.count(e["s"]))), ("reversed", lambda: list(reversed(v))), ("index", lambda: v.index(v[i])), ("svg_d", lambda: Path.svg_d(list(v))),
            ]
        else:
            out += [("bbox", lambda: v.bbox()), ("==path", lambda: v == e["q"])]
    return out


def run(c, mon):
    from svgio.basic import Matrix, Point
    from svgio.path import Path

    kind = c["kind"]
    r = random.Random(c["seed"])
    mon.nontrivial()
    mon.feat("%s:%s" % (c["what"], kind))

    def build():
        v = make(kind, c["a"])
        e = dict(
            b=make(kind, c["b"]), m=Matrix(*c["m"]), p=Point(*c["p"]), q=make("path", c["q"]), s=make("segment", c["s"]), qt=c["q"][0],
            mt="matrix(%s)" % ",".join("%.6f" % x for x in c["m"]),
        )
        return v, e

    # the whole backing path of a subpath is watched with it
    def whole(v):
        return snap(v._path) if type(v).__name__ == "Subpath" and hasattr(v, "_path") else None

    if c["what"] == "alias":
        if kind == "angle":
            v, e = build()
            w = copy.copy(v)
            mon.check(w == v and float(w) == float(v) and type(w) is type(v), "copy:angle")
            return
        ops = operators(kind)
        op = r.choice(sorted(ops))
        if kind == "matrix" and c["a"][6] and op not in ("copy", "deepcopy", "Matrix"):
            op = "copy"
        mon.feat("%s %s" % (kind, op))
        mon.ev("op:%s" % kind)
        seed = r.getrandbits(32)
        for side in ("result", "source", "operand"):
            v, e = build()
            before = (snap(v), {k: snap(x) for k, x in e.items()}, whole(v))
            w = ops[op](v, e)
            desc = lambda: "%s of %r (%s changed): %r" % (op, snap(v), side, c)
            mon.check((snap(v), {k: snap(x) for k, x in e.items()}, whole(v)) == before, "operator-mutates:%s:%s" % (kind, op), desc)
            if op in COPIES:
                same = snap(w) == before[0] if (op != "Path" or kind == "path") else snap(w)[1:] == before[0][1:]
                mon.check(same and (kind == "viewbox" or w == v) and (op == "Path" or type(w) is type(v)), "copy-differs:%s:%s" % (kind, op), lambda: "%r; %s" % (snap(w), desc()))
            got = (snap(w), whole(w))
            rr = random.Random(seed)
            if side == "result":
                shake(w, rr)
                mon.check((snap(v), {k: snap(x) for k, x in e.items()}, whole(v)) == before, "shared:%s:%s" % (kind, op), desc)
                # parts taken one at a time
                v, e = build()
                before = (snap(v), {k: snap(x) for k, x in e.items()}, whole(v))
                w = ops[op](v, e)
                parts = list(w) if type(w).__name__ in ("Path", "Subpath", "list") else []
                if parts:
                    x = rr.choice(parts)
                    shake(x, rr)
                    mon.check((snap(v), {k: snap(x) for k, x in e.items()}, whole(v)) == before, "shared:%s:%s" % (kind, op), desc)
            elif side == "source":
                shake(v, rr)
                mon.check((snap(w), whole(w)) == got, "shared-source:%s:%s" % (kind, op), desc)
            else:
                for x in e.values():
                    if not isinstance(x, str):
                        shake(x, rr)
                mon.check((snap(w), whole(w)) == got, "shared-operand:%s:%s" % (kind, op), desc)
    elif c["what"] == "read":
        v, e = build()
        calls = readers(kind, v, e, r)
        for _ in range(10):
            name, f = r.choice(calls)
            before = (snap(v), {k: snap(x) for k, x in e.items()}, whole(v))
            f()
            mon.ev("read:%s" % kind)
            mon.feat("read %s.%s" % (kind, name))
            after = (snap(v), {k: snap(x) for k, x in e.items()}, whole(v))
            mon.check(after == before, "read-mutates:%s:%s" % (kind, name), lambda: "%r became %r; %r" % (before, after, c))
    else:
        equality(c, kind, r, mon, build)


def equality(c, kind, r, mon, build):
    from svgio.basic import Length, Point
    from svgio.path import Close, Line, Move, Path

    if kind == "viewbox":
        return
    v, e = build()
    u, _ = build()
    desc = lambda: repr(c)

    def pair(x, y, want, key):
        a, b = x == y, y == x
        mon.check(a is want and b is want, "equality:%s:%s" % (kind, key), lambda: "%r == %r is %r, reversed %r, expected %r; %s" % (snap(x), snap(y), a, b, want, desc()))
        mon.check((x != y) is (not want) and (y != x) is (not want), "inequality:%s:%s" % (kind, key), lambda: "%r != %r; %s" % (snap(x), snap(y), desc()))
        mon.ev("equal" if want else "different")

    pair(v, v, True, "self")
    pair(v, u, True, "rebuilt")
    pair(v, copy.copy(v), True, "copy")
    w = e["b"]
    a, b = v == w, w == v
    mon.check(bool(a) == bool(b), "symmetry:%s" % kind, lambda: "%r, %r: %s" % (a, b, desc()))
    if kind == "point":
        u[r.randint(0, 1)] += r.choice([0.001, -1, 100, 1e-8])
        pair(v, u, False, "coordinate")
    elif kind == "matrix":
        i = r.randint(0, 3 if c["a"][6] else 5)
        u[i] = u[i] + r.choice([0.001, -1, 100, 1e-8])
        pair(v, u, False, "component")
    elif kind == "length":
        pair(v, Length(v.amount + r.choice([0.001, -1, 100, 1e-8]), v.units), False, "amount")
    elif kind == "color":
        if v.value is not None:
            ch = r.choice(["red", "green", "blue", "alpha"])
            setattr(u, ch, getattr(u, ch) ^ r.choice([1, 2, 128]))
            pair(v, u, False, "channel")
        else:
            u.rgba = r.getrandbits(32)
            pair(v, u, False, "none")
    elif kind == "segment":
        change(u, r)
        pair(v, u, False, "coordinate")
        # the same points in another kind of segment
        t = type(v).__name__
        for cls in (Line, Close, Move):
            if cls.__name__ != t:
                pair(v, cls(v.start, v.end), False, "kind")
        mon.check(not (v == None) and v != None, "none", desc)  # noqa
    elif kind in ("path", "subpath"):
        if kind == "subpath":
            v, u = Path(v), u
        pair(v, u, True, "container") if len(v) else None
        if kind == "path" and len(v):
            # with its text, before and after it changed
            text = v.d()
            q = Path(text)
            if len(q):
                mon.check((q == text) is True and (q != text) is False, "equality:text", lambda: "%r; %s" % (text, desc()))
                s = q[r.randrange(len(q))]
                s.end = None if s.end is None else (s.end.x + 1.0, s.end.y - 2.0)
                if s.end is not None:
                    mon.check((q == text) is False and (q != text) is True, "equality:text-changed", lambda: "%r is %r; %s" % (text, q, desc()))
                    mon.ev("text-changed")
        k = r.randint(0, 3)
        n = len(u)
        if k == 0:
            change(u[r.randrange(n)], r)
        elif k == 1:
            u += "M 1,2"
        elif k == 2 and n > 1:
            del u[n - 1]
        else:
            i = r.randrange(n)
            s = u[i]
            if kind == "subpath" or type(s).__name__ != "Line":
                change(s, r)
            else:
                u[i] = Close(s.start, s.end)
        pair(v, u, False, "segments")
        pair(u, v, False, "segments")


def change(s, r):
    """Moves one of the segment's points."""
    t = type(s).__name__
    names = {"Arc": ["center", "prx", "pry"], "CubicBezier": ["control1", "control2"], "QuadraticBezier": ["control"]}.get(t, []) + ["start", "end"]
    names = [n for n in names if getattr(s, n) is not None]
    if t == "Arc" and r.random() < 0.3:
        # another length, or the rest of the same ellipse
        from svgio.basic import Angle

        s.sweep = Angle(s.sweep + r.choice([0.1, 2 * math.pi, -2 * math.pi, 1e-3]))
        return
    p = getattr(s, r.choice(names))
    p[r.randint(0, 1)] += r.choice([0.001, -1, 100, 1e-8])
