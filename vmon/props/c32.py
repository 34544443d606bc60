"""C32: segments and paths hold and report the points they were given."""
import math
import operator
import random
from copy import copy

from .. import edits, gen, segs
from .. import ref_path as R

ID = "C32"
RULE = (
    "every segment class in every documented spelling (positional, keyword, mixed, absent parts, flags; points as tuple, list, complex, text "
    "or Point), its items, attributes, length, iteration, text and reversal against the points given; lines of every kind with the nearest "
    "point recomputed in rational arithmetic; paths from program text, lists, tuples and separate segments, whose first, current, z and "
    "smooth points, defining points and sequence views are compared with a plain list; sums of paths, windows, segments and texts, + and +=, against the joined list. Non-trivial: every case; distinct by case."
)
QUICK, THOROUGH = 200000, 3000000
MIN = 8000
ASSUMPTIONS = ["a close written out alone goes back to its own start, so its end is not compared", "the z point of a path without a move is its first element's end, as documented"]

PARTS = dict(Move=["start", "end"], Line=["start", "end"], Close=["start", "end"], QuadraticBezier=["start", "control", "end"],
             CubicBezier=["start", "control1", "control2", "end"], Arc=["start", "end", "center", "prx", "pry"])
FORMS = ["tuple", "tuple", "list", "complex", "point", "text"]


def cases(r):
    while True:
        k = r.random()
        mode = gen.pick_mode(r)
        if k < 0.45:
            cls = r.choice(list(PARTS))
            n = len(PARTS[cls])
            pts = [gen.point(r, mode) for _ in range(n)]
            absent = []
            if cls in ("Line", "Close", "QuadraticBezier", "CubicBezier") and r.random() < 0.4:
                absent = [i for i in range(n) if r.random() < 0.4]
            how = r.choice(["pos", "kw", "mixed"])
            flags = {}
            if r.random() < 0.4:
                flags["relative"] = r.random() < 0.5
            if r.random() < 0.3:
                flags["smooth"] = r.random() < 0.5
            yield dict(kind="seg", cls=cls, pts=pts, absent=absent, how=how, flags=flags, forms=[r.choice(FORMS) for _ in pts], cut=r.randint(0, n), one=r.random(),
                       geo=segs.spec(r, mode, kinds="aA"), seed=r.randint(0, 1 << 30))
        elif k < 0.65:
            a, b, p = gen.point(r, mode), gen.point(r, mode), gen.point(r, mode)
            x = r.random()
            if x < 0.12:
                b = list(a)
            elif x < 0.24:
                b[r.randint(0, 1)] = a[0]
            elif x < 0.3:
                p = list(r.choice([a, b]))
            elif x < 0.36:
                p = [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2]
            yield dict(kind="near", a=a, b=b, p=p, form=r.choice(["tuple", "list", "point"]), close=r.random() < 0.3)
        elif k < 0.72:
            n = r.choice([2, 2, 2, 3, 4])
            yield dict(kind="concat", parts=[[r.choice(["path", "path", "sub", "seg", "seg", "text", "empty"]), gen.program(r, n=r.choice([1, 2, 3, 5]), mode=mode)] for _ in range(n)],
                       inplace=[r.random() < 0.4 for _ in range(n)], mode=mode, seed=r.randint(0, 1 << 30))
        else:
            yield dict(kind="path", prog=gen.program(r, n=r.choice([1, 2, 3, 5, 8]), mode=mode, letters=r.choice(["LHVCSQTAZM", "QTCSM", "QCAZM", "LZM", "CQ"])),
                       ctor=r.choice(["text", "list", "tuple", "star", "path", "one", "append", "sum"]), lead=r.random() < 0.15, seed=r.randint(0, 1 << 30))


def shaped(p, form):
    from svgio.basic import Point

    if form == "list":
        return list(p)
    if form == "complex":
        return complex(*p)
    if form == "point":
        return Point(*p)
    if form == "text":
        return "%r,%r" % (float(p[0]), float(p[1]))
    return tuple(p)


def run(c, mon):
    mon.nontrivial()
    dict(seg=segment, near=nearest, path=path, concat=concat)[c["kind"]](c, mon)


def segment(c, mon):
    import svgio.path as sp
    from svgio.basic import Point

    cls, names = c["cls"], PARTS[c["cls"]]
    K = getattr(sp, cls)
    want = {n: (None if i in c["absent"] else tuple(map(float, p))) for i, (n, p) in enumerate(zip(names, c["pts"]))}
    given = {n: (None if want[n] is None else shaped(want[n], f)) for n, f in zip(names, c["forms"])}
    flags = c["flags"]
    how = c["how"]
    sweep = None
    if cls == "Move":
        s, e = given["start"], given["end"]
        x = int(c["one"] * 6)
        if x == 0:
            want["start"] = None
            o, call = K(e, **flags), "Move(end)"
        elif x == 1:
            o, call = K(s, e, **flags), "Move(start, end)"
        elif x == 2:
            o, call = K(e, start=s, **flags), "Move(end, start=)"
        elif x == 3:
            o, call = K(s, end=e, **flags), "Move(start, end=)"
        elif x == 4:
            o, call = K(start=s, end=e, **flags), "Move(start=, end=)"
        else:
            want["start"] = None
            o, call = K(end=e, **flags), "Move(end=)"
    elif cls == "Arc":
        g = segs.make(c["geo"])
        for n in names:
            want[n] = (float(getattr(g, n).x), float(getattr(g, n).y))
            given[n] = shaped(want[n], "tuple" if c["forms"][names.index(n)] == "complex" and n == "end" and how != "kw" else c["forms"][names.index(n)])
        sweep = float(g.sweep)
        if how == "pos":
            o, call = K(*[given[n] for n in names] + [sweep]), "Arc(native)"
        elif how == "kw":
            o, call = K(sweep=sweep, **given), "Arc(native keywords)"
        else:
            k = c["cut"]
            rest = {n: given[n] for n in names[k:]}
            o, call = K(*[given[n] for n in names[:k]], sweep=sweep, **rest), "Arc(native mixed)"
    elif how == "pos":
        o, call = K(*[given[n] for n in names], **flags), cls + " positional"
    elif how == "kw":
        if cls in ("Line", "Close"):
            o = K(**{n: v for n, v in given.items() if v is not None or c["one"] < 0.5}, **flags)
        else:
            o = K(**given, **flags)
        call = cls + " keywords"
    else:
        k = c["cut"]
        o, call = K(*[given[n] for n in names[:k]], **{n: given[n] for n in names[k:]}, **flags), cls + " mixed"
    mon.feat("spelling:" + call)
    mon.state(call, tuple(c["absent"]), tuple(sorted(flags)))
    desc = lambda: "%s of %r gave %r, expected %r" % (call, given, o, want)
    at = lambda q: None if q is None else (float(q.x), float(q.y))
    for i, n in enumerate(names):
        v = getattr(o, n)
        mon.check(v is None or isinstance(v, Point), "type", desc)
        mon.check(at(v) == want[n], "attribute:%s.%s" % (cls, n), desc)
        mon.check(at(o[i]) == want[n], "item:" + cls, desc)
        if isinstance(given[n], (Point, list)):
            # the segment keeps its own point
            keep = given[n][0]
            given[n][0] = 12345.5
            mon.check(at(getattr(o, n)) == want[n], "adopts:" + cls, desc)
            given[n][0] = keep
    mon.check(len(o) == len(names), "len", desc)
    mon.check([at(q) for q in o] == [want[n] for n in names if want[n] is not None], "iteration:" + cls, desc)
    for i in (len(names), len(names) + 3):
        try:
            o[i]
            mon.fail("index:" + cls, desc())
        except IndexError:
            pass
    if cls != "Arc":
        mon.check(o.relative == flags.get("relative", False), "relative", desc)
        mon.check(o.smooth == flags.get("smooth", True), "smooth", desc)
    else:
        mon.check(float(o.sweep) == sweep, "sweep", desc)
    q = copy(o)
    mon.check(q == o and not q != o and all(at(getattr(q, n)) == want[n] for n in names), "copy:" + cls, desc)
    mon.check(all(getattr(q, n) is None or getattr(q, n) is not getattr(o, n) for n in names), "copy-shares:" + cls, desc)
    if cls == "Move":
        mon.check(o.length() == 0 and at(o.point(0.3)) == want["end"], "move-draws", desc)
    # a difference in any one part is a difference of the segments
    for n in names:
        if want[n] is None:
            continue
        q = copy(o)
        setattr(q, n, Point(want[n][0] + 1 + abs(want[n][0]), want[n][1]))
        mon.check(not q == o and q != o, "equality:%s.%s" % (cls, n), desc)
    for other in ("Line", "Close", "Move"):
        if other != cls and cls in ("Line", "Close", "Move"):
            u = getattr(sp, other)(given["start"], given["end"])
            mon.check(not u == o and u != o, "equality:kinds", lambda: "%r equals %r" % (u, o))
    if all(v is not None for v in want.values()) and not (cls == "Arc" and abs(sweep) > 6.28):
        t = str(o)
        p = list(sp.Path(t))
        mon.check(type(p[-1]).__name__ == cls, "text:" + cls, lambda: "%r reads as %r" % (t, p))
        sc = max(abs(v) for w in want.values() for v in w) or 1.0
        chk = names if cls not in ("Close", "Arc") else ["start"] if cls == "Close" else ["start", "end"]
        mon.check(all(R.near(R.xy(getattr(p[-1], n)), want[n], 1e-9 * sc + 1e-11) for n in chk), "text:" + cls, lambda: "%r of %r reads as %r" % (t, o, p))
        q = copy(o)
        q.reverse()
        back = [(float(a.x), float(a.y)) for a in q]
        ws = [want[n] for n in names]
        exp = ws[::-1] if cls != "Arc" else [ws[1], ws[0]] + ws[2:]
        mon.check(back == exp and (cls != "Arc" or float(q.sweep) == -sweep), "reverse:" + cls, lambda: "reverse of %r is %r" % (o, q))
        mon.ev("text+reverse")
    mon.ev("segment:" + cls)


def nearest(c, mon):
    from svgio.path import Close, Line
    from fractions import Fraction as F

    a, b, p = [tuple(map(float, c[k])) for k in "abp"]
    s = (Close if c["close"] else Line)(a, b)
    given = shaped(p, c["form"])
    fa, fb, fp = [tuple(map(F, q)) for q in (a, b, p)]
    ab = (fb[0] - fa[0], fb[1] - fa[1])
    n2 = ab[0] ** 2 + ab[1] ** 2
    t = ((fp[0] - fa[0]) * ab[0] + (fp[1] - fa[1]) * ab[1]) / n2 if n2 else F(0)
    sc = max(map(abs, a + b + p)) or 1.0
    for bound in (None, True, False):
        u = t if bound is False else min(max(t, F(0)), F(1))
        want = (float(fa[0] + ab[0] * u), float(fa[1] + ab[1] * u))
        got = s.closest_segment_point(given) if bound is None else s.closest_segment_point(given, respect_bounds=bound)
        # t itself suffers when the line is short against the coordinates
        err = 1e-12 * (1 + abs(float(u))) * sc
        if n2:
            err += 1e-13 * sc * (sc / math.sqrt(float(n2)))
        key = "nearest" if bound is None else "nearest:%s" % bound
        mon.check(hasattr(got, "x") and R.near(R.xy(got), want, err), key, lambda: "%r: nearest to %r is %r, expected %r (bounds %r)" % (s, p, got, want, bound))
        mon.ev("nearest:" + ("point" if not n2 else "inside" if 0 <= t <= 1 else "outside"))
    mon.check((R.xy(s.start), R.xy(s.end)) == (a, b), "nearest-changes", lambda: repr(s))
    mon.state(c["close"], bool(n2), t < 0, t > 1)


def concat(c, mon):
    """a + b + ... and a += b over paths, subpaths, segments and texts: the segments of each, in order, in a path."""
    from svgio.path import Path, PathSegment, Subpath

    r = random.Random(c["seed"])
    parts, items = [], []
    for form, prog in c["parts"]:
        text = gen.plain([["M"] + prog[0][1:2]] + prog[1:])  # absolute: no current point enters
        if form == "seg":
            x = edits.make_segment(r, c["mode"], "MLLQCAZ")
        elif form == "text":
            x = text
        elif form == "empty":
            x = Path()
        else:
            x = Path(text)
            if form == "sub":
                x = x.subpath(r.randint(0, x.count_subpaths() - 1))
        if form == "text":
            its = edits.items_of(Path(text))
        else:
            its = edits.items_of([x] if form == "seg" else x)
        parts.append(x)
        items.append(its)
    if isinstance(parts[0], str) and c["parts"][1][0] in ("text", "seg"):
        parts[0] = Path(parts[0])
    name = lambda v: "segment" if isinstance(v, PathSegment) else type(v).__name__
    read = lambda v: None if isinstance(v, str) else R.read(v) if isinstance(v, PathSegment) else R.snapshot(v)
    desc = lambda: "%r (%s)" % (parts, ", ".join("+=" if i else "+" for i in c["inplace"][1:]))
    res, want = parts[0], items[0]
    for x, its, inplace in zip(parts[1:], items[1:], c["inplace"][1:]):
        if isinstance(res, Subpath) and isinstance(x, Subpath):
            res = Path(res)  # two windows do not add up
        keep, same = read(res), read(x)
        old = res
        if inplace and not isinstance(res, Subpath):
            res = operator.iadd(res, x)
            mon.check(not isinstance(old, Path) or res is old, "concat:inplace-new", desc)
        else:
            res = res + x
        mon.check(res is old or read(old) == keep, "concat:operand", desc)
        mon.check(x is old or read(x) == same or inplace, "concat:other", desc)
        want = want + its
        mon.check(isinstance(res, (Path, Subpath)), "concat:type", lambda: "%r from %s" % (type(res), desc()))
        got = list(res)
        mon.check([type(s).__name__ for s in got] == [i.kind for i in want], "concat:kinds", lambda: "%r, expected %r from %s" % (got, want, desc()))
        sc = R.seg_scale(got)
        z = None
        for s, it in zip(got, want):
            if it.kind == "Move":
                z = it.end
            if it.kind == "Close":
                ok = z is None or s.end is None or it.end is None or R.near(R.xy(s.end), it.end, 1e-9 * sc) or R.near(R.xy(s.end), z, 1e-9 * sc)
            else:
                ok = R.near(R.xy(s.end), it.end, 1e-9 * sc)
            mon.check(ok, "concat:end", lambda: "%r, expected %r from %s" % (got, want, desc()))
            ctrl = R.ctrl_of(s)
            mon.check(len(ctrl) == len(it.ctrl) and all(R.near(u, v, 1e-9 * sc) for u, v in zip(ctrl, it.ctrl)), "concat:control", lambda: "%r, expected %r from %s" % (got, want, desc()))
        mon.ev("concat:%s+%s" % (name(old), name(x)))
    mon.nontrivial()
    mon.state("concat", tuple(f for f, _ in c["parts"]))


def path(c, mon):
    from svgio.basic import Point
    from svgio.path import Arc, Close, CubicBezier, Line, Move, Path, QuadraticBezier

    r = random.Random(c["seed"])
    base = Path(gen.plain(c["prog"]))
    ss = [copy(s) for s in base]
    if c["lead"] and len(ss) > 1 and not any(isinstance(s, (Move, Close)) for s in ss[1:]):
        ss = ss[1:]  # a fragment without a move
    ctor = c["ctor"]
    if c["lead"] and ctor in ("star", "path") and len(ss) > 1 and not any(isinstance(s, Move) for s in ss[1:]):
        ss = ss[1:]
    if ctor in ("list", "tuple", "star", "one", "append", "sum") and c["seed"] % 3 == 0:
        ss[0].start = Point(*gen.point(r, "int"))  # the first segment may know where it comes from
    model = [copy(s) for s in ss]
    mon.feat("path:" + ctor)
    if ctor == "text" and len(ss) == len(base):
        p, objs = base, None
    elif ctor == "list":
        p, objs = Path(ss), ss
    elif ctor == "tuple":
        p, objs = Path(tuple(ss)), ss
    elif ctor == "star":
        p, objs = Path(*ss), ss
    elif ctor == "one":
        ss, model = ss[:1], model[:1]
        p, objs = Path(ss[0]), ss
    elif ctor == "append":
        p, objs = Path(), ss
        for s in ss:
            p.append(s)
    elif ctor == "sum":
        p, objs = Path(), None
        for s in ss:
            p += s
    else:
        p, objs = Path(Path(*ss)), None
    got = list(p)
    desc = lambda: "%r via %s holds %r" % (model, ctor, got)
    mon.check(len(p) == len(got) == len(model), "path-count", desc)
    for g, w in zip(got, model):
        mon.check(type(g) is type(w) and g == w, "path-segments:" + ctor, desc)
    if ctor == "path":
        mon.check(not any(g is s for g in got for s in ss), "path-shares", desc)
    # reported points
    at = lambda q: None if q is None else (float(q[0]), float(q[1]))
    first = model[0].start if model[0].start is not None else model[0].end
    mon.check(at(p.first_point) == at(first), "first-point", lambda: "%r of %r" % (p.first_point, got))
    # paths behave so at every stage of their history
    stages = [len(model)] + [r.randint(1, len(model)) for _ in range(3)]
    for n in stages:
        q, part = (p, model) if n == len(model) else (Path(*[copy(s) for s in model[:n]]) if n != 1 else Path(copy(model[0])), model[:n])
        last = part[-1]
        mon.check(at(q.current_point) == at(last.end), "current-point", lambda: "%r of %r" % (q.current_point, part))
        moves = [s for s in part if isinstance(s, Move)]
        z = (moves[-1] if moves else part[0]).end
        mon.check(at(q.z_point) == at(z), "z-point", lambda: "%r of %r, expected %r" % (q.z_point, part, z))
        e = at(last.end)
        ctl = last.control if isinstance(last, QuadraticBezier) else last.control2 if isinstance(last, CubicBezier) else None
        want = e if ctl is None else (2 * e[0] - ctl.x, 2 * e[1] - ctl.y)
        sc = max(map(abs, e + (at(ctl) if ctl is not None else e)))
        mon.check(R.near(at(q.smooth_point), want, 1e-12 * sc), "smooth-point", lambda: "%r of %r, expected %r" % (q.smooth_point, part, want))
        mon.ev("points:" + type(last).__name__)
        mon.state(type(last).__name__, len(moves) > 1, n > 1)
    pts = [at(q) for q in p.as_points()]
    exp = [at(getattr(s, n)) for s in model for n in PARTS[type(s).__name__] if getattr(s, n) is not None]
    mon.check(pts == exp, "as-points", lambda: "%r, expected %r" % (pts, exp))
    equality(p, model, ctor, base, r, mon)
    # sequence views
    n = len(model)
    mon.check([id(s) for s in reversed(p)] == [id(s) for s in reversed(got)], "reversed", desc)
    for i in range(-n, n):
        mon.check(p[i] is got[i], "index", lambda: "p[%d]" % i)
    for i in (n, -n - 1, n + 5):
        try:
            p[i]
            mon.fail("index-range", desc())
        except IndexError:
            pass
    for _ in range(3):
        s = slice(*[r.choice([None, r.randint(-n - 1, n + 1)]) for _ in range(2)], r.choice([None, 1, 2, -1]))
        mon.check([id(x) for x in p[s]] == [id(x) for x in got[s]], "slice", lambda: repr(s))
    i = r.randrange(n)
    pos = [k for k in range(n) if model[k] == model[i]]
    mon.check(got[i] in p and p.index(got[i]) == pos[0] and p.count(got[i]) == len(pos), "search", lambda: "%r in %r" % (got[i], got))
    ghost = Line((1e7, 1), (2e7, 3))
    mon.check(ghost not in p and p.count(ghost) == 0, "search", desc)
    try:
        p.index(ghost)
        mon.fail("search", desc())
    except ValueError:
        pass
    mon.check(list(p) == got and list(p) == model, "reading-changes", desc)
    e = Path()
    mon.check(e.first_point is None and e.current_point is None and e.z_point is None and e.smooth_point is None and len(e) == 0 and list(e.as_points()) == [], "empty")


def equality(p, model, ctor, base, r, mon):
    """Paths are equal exactly when they have the same segments."""
    from svgio.basic import Point
    from svgio.path import Close, Line, Move, Path

    n = len(model)
    desc = lambda: "%r and %r" % (list(p), model)

    def twin():
        return Path(*[copy(s) for s in model]) if n != 1 else Path(copy(model[0]))

    q = twin()
    mon.check(p == q and q == p and not p != q and not q != p, "path-equal", desc)
    mon.check(p == p and not p != p, "path-equal-self", desc)
    subs = list(p.as_subpaths())
    if len(subs) == 1:
        mon.check(subs[0] == q and not subs[0] != q, "path-equal-subpath", desc)
    variants = []
    if n > 1:
        variants.append(("shorter", Path(*[copy(s) for s in model[:-1]]) if n > 2 else Path(copy(model[0]))))
    longer = twin()
    longer.append(Line(None, (1e6, 3)))
    variants.append(("longer", longer))
    variants.append(("empty", Path()))
    for _ in range(3):
        v = twin()
        i = r.randrange(n)
        s = v[i]
        names = [k for k in PARTS[type(s).__name__] if getattr(s, k) is not None]
        if not names:
            continue
        k = r.choice(names)
        at = getattr(s, k)
        d = r.choice([1, -0.25, 1e-6]) * max(1.0, abs(at.x), abs(at.y))
        setattr(s, k, Point(at.x + d, at.y) if r.random() < 0.5 else Point(at.x, at.y - d))
        variants.append(("point:" + k, v))
    i = r.randrange(n)
    s = model[i]
    if s.end is not None:
        K = r.choice([k for k in (Move, Line, Close) if not isinstance(s, k)])
        v = [copy(x) for x in model]
        v[i] = K(s.start, s.end)
        variants.append(("kind", Path(*v) if n > 1 else Path(v[0])))
    for name, v in variants:
        mon.check(not p == v and p != v and not v == p and v != p, "path-differs:" + name, lambda: "%r and %r" % (list(p), list(v)))
        if len(subs) == 1:
            mon.check(not subs[0] == v and subs[0] != v, "path-differs:subpath:" + name, lambda: "%r and %r" % (list(p), list(v)))
        mon.ev("path-compared")
    if ctor == "text" and n == len(base):
        text = p.d()
        if Path(text) == p:
            mon.check(p == text and not p != text and not p == text + " L 1e6,3" and p != text + "L 1e6,3" and not p == "" and p != "", "path-equal-text", lambda: text)
