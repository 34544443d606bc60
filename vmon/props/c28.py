"""C28: repr() of a value evaluates back to an equal value."""
import random

from .. import gen, segs

ID = "C28"
RULE = (
    "points, matrices, lengths (every unit, absent), colours (with and without alpha, none), angles, all seven segment kinds (also with absent starts) lists of segments of random paths, and subpaths, "
    "with grid, large, tiny, negative and twelve-digit numbers, also after transformations and after having been written with other fields; the repr is evaluated with only the library's names in scope and compared field by field (to the 12 decimals "
    "written) and by ==, and its own repr is the same again. Non-trivial: always; distinct by repr."
)
QUICK, THOROUGH = 420000, 6000000
MIN = 10000
ASSUMPTIONS = [
    "points with absent coordinates, non-finite numbers and integers beyond 2**53 are not claimed",
    "lengths in relative units and picas, and of a thousand pixels and more, are compared field by field only: == is exact on them, or finer than twelve decimals",
    "relative and smooth flags are not part of equality and are not claimed",
]
UNITS = ["", "px", "mm", "cm", "in", "pt", "pc", "%", "em", "ex", "vw", "vh", "vmin", "vmax"]


def number(r):
    k = r.random()
    if k < 0.2:
        return r.randint(-10, 10)
    if k < 0.35:
        return round(r.uniform(-1000, 1000), r.randint(0, 12))
    if k < 0.5:
        return r.uniform(-1, 1) * 10 ** r.randint(-15, 15)
    if k < 0.6:
        return r.choice([1e-12, -1e-12, 1e-13, 6e-13, 4e-13, -4e-13, 0.1, 1 / 3, -2 / 3, 1e15, 2.0**53, 123456789.123456789, -0.0, 100, 1000, 1e6, 1e20, 5e-324])
    return gen.number(r)


def pt(r):
    return [number(r), number(r)]


def cases(r):
    while True:
        kind = r.choice(["point", "matrix", "matrix", "length", "color", "angle", "segment", "segment", "segment", "list"])
        if kind == "point":
            a = pt(r)
        elif kind == "matrix":
            a = [number(r) for _ in range(6)] + [r.choice(["", "", "mm", "%", "px", "em"]), r.choice(["", "mm", "%"])]
        elif kind == "length":
            a = [number(r), r.choice(UNITS)] if r.random() < 0.97 else None
        elif kind == "color":
            a = r.choice([r.getrandbits(32), r.getrandbits(24) << 8 | 255, r.getrandbits(8), r.getrandbits(24) << 8, None])
        elif kind == "angle":
            a = r.choice([number(r), r.uniform(-10, 10), 0.0])
        elif kind == "segment":
            k = r.choice(["Move", "Close", "Line", "Quad", "Cubic", "arc", "arc"])
            if k == "arc":
                a = [k, segs.spec(r, r.choice(["grid", "tame"]), kinds="aA"), gen.matrix(r) if r.random() < 0.3 else None]
            else:
                a = [k, r.choice([None, pt(r), pt(r)]), pt(r), pt(r), pt(r) if r.random() < 0.9 or k in ("Quad", "Cubic") else None]
        else:
            a = [gen.plain(gen.program(r)), gen.matrix(r) if r.random() < 0.3 else None]
        yield dict(kind=kind, a=a)


def make(c):
    from svgio import basic, path

    kind, a = c["kind"], c["a"]
    if kind == "point":
        return basic.Point(*a)
    if kind == "matrix":
        m = basic.Matrix(*a[:6])
        if a[6]:
            m.e = basic.Length(a[4], a[6])
        if a[7]:
            m.f = basic.Length(a[5], a[7])
        return m
    if kind == "length":
        return basic.Length(None) if a is None else basic.Length(*a)
    if kind == "color":
        if a is None:
            return basic.Color("none")
        k = basic.Color()
        k.rgba = a
        return k
    if kind == "angle":
        return basic.Angle(a)
    if kind == "segment":
        if a[0] == "arc":
            s = segs.make(a[1])
            return s * basic.Matrix(*a[2]) if a[2] else s
        k, s, p, q, e = a
        tup = lambda x: tuple(x) if x is not None else None
        if k == "Quad":
            return path.QuadraticBezier(tup(s), tup(p), tup(e))
        if k == "Cubic":
            return path.CubicBezier(tup(s), tup(p), tup(q), tup(e))
        return getattr(path, k)(tup(s), tup(e))
    p = path.Path(a[0])
    if a[1]:
        p = p * basic.Matrix(*a[1])
    return list(p)


def close(a, b, extra=0.0):
    """Equal to the 12 decimals written."""
    if a is None or b is None:
        return a is b
    a, b = float(a), float(b)
    return abs(a - b) <= 5.1e-13 + 1e-15 * abs(a) + extra


def same(v, w, mon, where):
    t = type(v).__name__
    mon.check(type(w) is type(v), "type", where)
    if t == "Point":
        ok = close(v.x, w.x) and close(v.y, w.y)
    elif t == "Matrix":
        ok = all(close(getattr(v, k), getattr(w, k)) for k in "abcd")
        for k in "ef":
            x, y = getattr(v, k), getattr(w, k)
            if type(x).__name__ == "Length":
                # a length without or in pixel units may come back as a number
                if type(y).__name__ == "Length":
                    ok = ok and close(x.amount, y.amount) and x.units == y.units
                else:
                    ok = ok and x.units in ("", "px") and close(x.amount, y)
            else:
                ok = ok and close(x, y)
    elif t == "Length":
        ok = close(v.amount, w.amount) and v.units == w.units
    elif t == "Color":
        ok = v.value == w.value
    elif t == "Angle":
        ok = close(v, w)
    elif t == "list":
        ok = len(v) == len(w)
        for x, y in zip(v, w):
            same(x, y, mon, where)
    else:
        names = {"Arc": ["start", "end", "center", "prx", "pry"], "CubicBezier": ["start", "control1", "control2", "end"], "QuadraticBezier": ["start", "control", "end"]}.get(t, ["start", "end"])
        ok = True
        for n in names:
            x, y = getattr(v, n), getattr(w, n)
            if x is None or y is None:
                ok = ok and x is None and y is None
            else:
                ok = ok and close(x.x, y.x) and close(x.y, y.y)
        if t == "Arc":
            ok = ok and close(v.sweep, w.sweep)
    mon.check(ok, "fields:" + t, where)


FIELDS = {"Point": ["x", "y"], "Matrix": list("abcdef"), "Length": ["amount", "units"], "Color": ["value"], "CubicBezier": ["start", "control1", "control2", "end"], "QuadraticBezier": ["start", "control", "end"],
          "Arc": ["start", "end", "center", "prx", "pry", "sweep"], "Move": ["start", "end"], "Close": ["start", "end"], "Line": ["start", "end"]}


def earlier(v):
    """Writes the value down while it has other fields, and gives it its own back: nothing of that may remain."""
    from svgio.basic import Point

    if isinstance(v, list):
        for s in v:
            earlier(s)
        return
    names = FIELDS.get(type(v).__name__, [])
    given = [getattr(v, n) for n in names]
    others = []
    for n, x in zip(names, given):
        if n == "units":
            y = "mm" if x != "mm" else "in"
        elif n == "value":
            y = 5 if x != 5 else 6
        elif isinstance(x, Point):
            y = Point(x.x + 3.0, x.y - 4.0)
        elif isinstance(x, (int, float)):
            y = x + 1.5
        else:
            continue
        others.append((n, x, y))
        setattr(v, n, y)
        repr(v), str(v)
        setattr(v, n, x)
    for n, x, y in others:
        setattr(v, n, y)
    repr(v), str(v)
    for n, x, y in others:
        setattr(v, n, x)


def subpaths(c, mon, scope):
    """The repr of a subpath is that of a path of its segments."""
    from svgio import basic, path

    p = path.Path(c["a"][0])
    subs = list(p.as_subpaths())
    if c["a"][1]:
        for s in subs:
            repr(s), str(s)
        p *= basic.Matrix(*c["a"][1])
    for s in subs:
        text = repr(s)
        where = lambda: "%s for %r" % (text, c)
        try:
            w = eval(text, scope)
        except Exception as e:
            mon.fail("evaluates:Subpath", "%s: %s" % (e, where()))
        same(list(s), list(w), mon, where)
        mon.check(s == w and w == s and not s != w, "equal:Subpath", where)
        mon.ev("Subpath")


def run(c, mon):
    from svgio import basic, path

    scope = {n: getattr(m, n) for m in (basic, path) for n in ("Point", "Matrix", "Length", "Color", "Angle", "Move", "Close", "Line", "QuadraticBezier", "CubicBezier", "Arc") if hasattr(m, n)}
    scope["__builtins__"] = {}
    v = make(c)
    if sum(map(ord, repr(c))) % 3 == 0:
        earlier(v)
        mon.ev("written-before")
    if c["kind"] == "list":
        subpaths(c, mon, dict(scope, Path=path.Path))
    text = repr(v)
    where = lambda: "%s for %r" % (text, c)
    try:
        w = eval(text, scope)
    except Exception as e:
        mon.fail("evaluates:" + type(v).__name__, "%s: %s" % (e, where()))
    same(v, w, mon, where)
    relative = c["kind"] == "length" and c["a"] and c["a"][1] in ("pc", "%", "em", "ex", "vw", "vh", "vmin", "vmax") or c["kind"] == "matrix" and (c["a"][6] or c["a"][7])
    if c["kind"] == "length" and c["a"] and abs(v.in_pixels() or 0) >= 1000:
        relative = True  # twelve decimals are finer than floating point there; the fields were compared above
    if not relative:
        mon.check(w == v and v == w and not (w != v), "equal:" + type(v).__name__, where)
    again = repr(w)
    mon.check(again.replace("-0,", "0,").replace("-0)", "0)") == text.replace("-0,", "0,").replace("-0)", "0)") or c["kind"] in ("matrix", "segment", "list"), "repr-again", lambda: "%s; %s" % (again, where()))
    mon.check(repr(v) == text, "repr-changes", where)
    mon.ev(type(v).__name__)
    if c["kind"] == "segment":
        mon.feat("%s start %s end %s" % (type(v).__name__, v.start is not None, v.end is not None))
    elif c["kind"] == "list":
        mon.feat(*("list " + type(s).__name__ for s in v))
    elif c["kind"] == "length" and c["a"]:
        mon.feat("unit " + c["a"][1])
    mon.nontrivial(text)
