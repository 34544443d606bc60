"""C10: transforming a curve transforms every one of its points."""
import random
from copy import copy

from .. import gen, segs
from .. import ref_path as R
from . import c04

ID = "C10"
RULE = (
    "random segments of every kind times random invertible matrices (rotations, reflections, axis swaps, uniform and non-uniform "
    "scales, skews, general; condition number up to 1000) given as Matrix or as text, with * on either side and *=, once and "
    "in succession, for segments, whole paths and subpaths; every point of the result is compared with the matrix image of an "
    "independent evaluation of the original; also paths and subpaths after up to six edits of every kind (whose points were read before). Non-trivial: matrix other than a translation; distinct by case."
)
QUICK, THOROUGH = 56000, 900000
MIN = 3000
ASSUMPTIONS = ["arcs whose ellipse is more eccentric than about 1:1e5 or whose chord is tiny against the radii are only checked at their ends"]
TS = (0.0, 0.13, 0.3, 0.5, 0.77, 1.0)


def a_matrix(r):
    while True:
        m = gen.matrix(r)
        if gen.matrix_ok(m, 1000):
            return m


def cases(r):
    while True:
        k = r.random()
        c = dict(m=a_matrix(r), m2=a_matrix(r), form=r.choice(["mul", "mul", "rmul", "imul", "text", "itext"]), seed=r.randint(0, 1 << 30))
        if k > 0.85:
            mode = r.choice(["grid", "int", "tame"])
            c.update(kind="history", n=r.choice([1, 1, 2, 4, 6]), mode=mode, prog=gen.program(r, n=r.choice([1, 2, 3, 5]), mode=mode, close_rate=0.25, letters=r.choice(["LHVCSQTAZM", "LQAZM", "LHVZM", "QTCSLZM"])))
        elif k < 0.5:
            c.update(kind="seg", spec=segs.spec(r, kinds="mlcqCaaaAAA"), rev=r.random() < 0.15)
        else:
            c.update(kind="path" if k < 0.68 else "subpath", prog=gen.program(r, n=r.choice([2, 3, 5, 9]), letters=r.choice(["LHVCSQTAZM", "LQAM", "QTCSLZM", "AAZML"])))
        yield c


def mul(m, n):
    """First m, then n."""
    return [
        m[0] * n[0] + m[1] * n[2], m[0] * n[1] + m[1] * n[3],
        m[2] * n[0] + m[3] * n[2], m[2] * n[1] + m[3] * n[3],
        m[4] * n[0] + m[5] * n[2] + n[4], m[4] * n[1] + m[5] * n[3] + n[5],
    ]


def times(x, m, form):
    """x transformed by m in the requested form; returns (result, in_place)."""
    from svgio.basic import Matrix

    text = "matrix(%s)" % ", ".join(repr(float(v)) for v in m)
    if form == "mul":
        return x * Matrix(*m), False
    if form == "rmul":
        return type(x).__rmul__(x, Matrix(*m)), False
    if form == "text":
        return x * text, False
    y = x
    if form == "imul":
        y *= Matrix(*m)
    else:
        y *= text
    return y, True


def run(c, mon):
    from svgio.basic import Matrix

    m = c["m"]
    lin = m[:4] != [1, 0, 0, 1]
    mon.feat(c["kind"] + ":" + c["form"])
    if c["kind"] == "seg":
        return segment(c, mon, lin)
    if c["kind"] == "history":
        return history(c, mon, lin)
    return path(c, mon, lin)


def history(c, mon, lin):
    """A path with a past: its points before, mapped, are its points after."""
    from svgio.path import Path

    r = random.Random(c["seed"])
    p = Path(gen.plain(c["prog"]))
    quiet = type(mon)()
    done = [k for k in (c04.mutate(r, p, c, quiet) for _ in range(c["n"])) if k]
    if not len(p) or not c04.usable(p):
        mon.ev("history:unusable")
        return
    m = c["m"]
    view = p
    if r.random() < 0.3:
        view = p.subpath(r.randrange(p.count_subpaths()))
    inside = list(view)
    n2 = max(1.0, max(map(abs, m[:4])))
    sc = R.seg_scale(list(p)) * n2 + max(map(abs, m))
    before = []
    for s in inside:
        k = type(s).__name__
        ts = TS if k != "Move" else (1.0,)
        tol = 1e-9 * sc
        if k == "Arc" and s.sweep != 0:
            mapped = [segs.apply(m, R.xy(q)) for q in (s.center, s.prx, s.pry)]
            rx, ry = float(s.rx), float(s.ry)
            ok = rx and ry and max(rx, ry) < 50 * min(rx, ry) and gen.matrix_ok(m, 100) and on_ellipse(s)
            if not ok or abs(float(s.sweep)) > 6.28 or R.dist(R.xy(s.start), R.xy(s.end)) < 1e-3 * max(rx, ry):
                ts = (0.0, 1.0)
            tol = 1e-6 * sc
        before.append((k, ts, [R.xy(s.point(t)) for t in ts], tol))
    got, inplace = times(view, m, c["form"])
    after = list(got)
    desc = lambda: "%r after %r, times %r: %r" % (c["prog"], done, m, after)
    mon.check(len(after) == len(before), "history:count", desc)
    for i, (s, (k, ts, pts, tol)) in enumerate(zip(after, before)):
        mon.check(type(s).__name__ == k, "history:kind", desc)
        for t, q in zip(ts, pts):
            w = segs.apply(m, q)
            mon.check(R.near(R.xy(s.point(t)), w, tol if t not in (0, 1) else 1e-9 * sc), "history:%s" % k, lambda: "segment %d at %g is %r, image of the original %r; %s" % (i, t, R.xy(s.point(t)), w, desc()))
        mon.ev("history:" + k)
    mon.feat(*["after:" + k for k in done])
    if lin and done:
        mon.nontrivial()


def on_ellipse(s):
    """The ends of an arc are on its ellipse (an edited neighbour may have moved them) and its sweep joins them."""
    a = s.point(1e-9), s.point(1 - 1e-9)
    return R.near(R.xy(a[0]), R.xy(s.start), 1e-5 * float(s.rx)) and R.near(R.xy(a[1]), R.xy(s.end), 1e-5 * float(s.rx))


def points(mon, real, point, tol, where, ends, detail, end_tol=None):
    k = type(real).__name__
    end_tol = end_tol or 1e-9 * R.seg_scale([real])
    for t in TS:
        if k == "Move" and t != 1:
            continue
        if tol is None and t not in (0, 1):
            continue
        tl = end_tol if t in (0, 1) else tol
        got, want = R.xy(real.point(t)), point(t)
        mon.check(R.near(got, want, tl), where + ":" + k, lambda: "at %g is %r, image of the original %r (tolerance %g); %s" % (t, got, want, tl, detail()))
        mon.ev("point:" + k)


def segment(c, mon, lin):
    from svgio.basic import Matrix

    m, m2 = c["m"], c["m2"]
    orig = segs.make(c["spec"])
    if c["rev"]:
        orig.reverse()
    k = type(orig).__name__
    before = R.read(orig)
    a = segs.Mapped(c["spec"], m, c["rev"])
    x = segs.make(c["spec"])
    if c["rev"]:
        x.reverse()
    got, inplace = times(x, m, c["form"])
    mon.check(type(got) is type(orig), "kind:" + k, lambda: "%r became %r" % (orig, got))
    if k not in ("Move", "Close"):
        # what it measures is what a copy of it measures
        fresh = copy(got)
        sc = R.seg_scale([got])
        for u, v in zip(got.bbox(), fresh.bbox()):
            mon.check(abs(u - v) <= 1e-9 * sc, "bbox-of-copy:" + k, lambda: "%r is bounded by %r, a copy by %r" % (got, got.bbox(), fresh.bbox()))
        if k == "Arc":
            mon.check(abs(float(got.rx) - float(fresh.rx)) <= 1e-9 * sc and abs(float(got.ry) - float(fresh.ry)) <= 1e-9 * sc, "radii-of-copy", lambda: repr(got))
        mon.ev("copy-measured")
    if inplace:
        mon.check(got is x, "inplace-identity:" + k)
    else:
        mon.check(got is not x and R.read(x) == before, "operand:" + k, lambda: "%s changed its operand %r to %r" % (c["form"], orig, x))
    tol = limited(a, got)
    points(mon, got, a.point, tol, "image", None, lambda: "%r times %r gives %r" % (orig, m, got))
    # twice equals the product
    m12 = mul(m, m2)
    b = segs.Mapped(c["spec"], m12, c["rev"])
    two = got * Matrix(*m2)
    one = orig * (Matrix(*m) * Matrix(*m2))
    tb = limited(b, one)
    if tb is not None and tol is not None and gen.matrix_ok(m12, 1000):
        n2 = max(1.0, max(map(abs, m2[:4])))
        tb2 = (tb + tol * n2 * 2) * (1 + n2 * n2 / abs(m2[0] * m2[3] - m2[1] * m2[2]) if k == "Arc" else 1)
        if k != "Arc" or tb2 < 0.01 * min(float(one.rx), float(one.ry)):
            sc = max(R.seg_scale([got]) * n2, R.seg_scale([two, one]))
            points(mon, two, b.point, tb2, "twice", None, lambda: "%r times %r then %r gives %r" % (orig, m, m2, two), 1e-9 * sc)
            points(mon, one, b.point, tb + 1e-9 * sc, "product", None, lambda: "%r times the product of %r and %r gives %r" % (orig, m, m2, one), 1e-9 * sc)
            mon.ev("associativity")
    if lin and (k not in ("Move",)):
        mon.nontrivial()
    det = m[0] * m[3] - m[1] * m[2]
    mon.feat("%s:%s" % (k, "mirror" if det < 0 else "direct"))
    mon.state(k, [float("%.2g" % v) for v in m])


def limited(a, real):
    """Tolerance of a mapped curve, None when the resulting ellipse is too ill conditioned."""
    tol = a.tol()
    if tol is None:
        return None
    if type(real).__name__ == "Arc" and real.sweep != 0:
        big, small = max(float(real.rx), float(real.ry)), min(float(real.rx), float(real.ry))
        tol *= max(1.0, big / small / 10)
        if small <= 0 or tol > 0.01 * small:
            return None
    return tol


def path(c, mon, lin):
    from svgio.basic import Matrix
    from svgio.path import Path

    m = c["m"]
    p = Path(gen.plain(c["prog"]))
    ref = R.interpret(c["prog"])
    before = R.snapshot(p)
    det = m[0] * m[3] - m[1] * m[2]

    def image(i):
        """Reference points of segment i under m, with a tolerance."""
        s = ref[i]
        sc = max(R.scale_of(ref), 1.0) * max(1.0, max(map(abs, m)))
        tol = 1e-9 * sc * 4
        if s.arc is not None and not s.arc.line:
            spec = ["arc", s.start] + arc_spec(i) + [s.end]
            mp = segs.Mapped(spec, m)
            tol = limited(mp, mp.real)
            if tol is not None:
                tol += 1e-9 * sc
                tol += 1e-9 * sc * max(1.0, R.scale_of(ref) * 1e-3 / max(R.dist(s.start, s.end), 1e-12))
                if tol > 0.01 * min(mp.real.rx, mp.real.ry):
                    tol = None
        return (lambda t: segs.apply(m, s.point(t))), tol, 1e-9 * sc

    arcs = {}
    i = 0
    for item in c["prog"]:
        for g in item[1:] if item[0] not in "zZ" else [None]:
            if item[0] in "Aa":
                arcs[i] = g[:5]
            i += 1

    def arc_spec(i):
        return list(arcs[i])

    def check_image(real, idx, where):
        for j, i in enumerate(idx):
            f, tol, et = image(i)
            points(mon, real[j], f, tol, where, None, lambda: "segment %d %r of %r times %r" % (i, real[j], c["prog"], m), et)

    if c["kind"] == "path":
        got, inplace = times(p, m, c["form"])
        mon.check(type(got) is Path and len(got) == len(ref), "path:count", lambda: "%r times %r gives %r" % (p, m, got))
        if inplace:
            mon.check(got is p, "path:inplace")
        else:
            mon.check(got is not p and R.snapshot(p) == before, "path:operand", lambda: "%s changed its operand" % c["form"])
        check_image(list(got), range(len(ref)), "path:image")
        # @ is the same operation
        q = Path(gen.plain(c["prog"])) @ Matrix(*m)
        check_image(list(q), range(len(ref)), "path:matmul")
        # measurement follows
        mon.check(abs(got.length() - sum(s.length() for s in got)) <= 1e-9 * R.seg_scale(got) * len(ref), "path:length")
        if lin:
            mon.nontrivial()
        mon.ev("path")
        return
    r = random.Random(c["seed"])
    runs = []
    for i, s in enumerate(ref):
        if i == 0 or s.kind == "Move":
            runs.append([])
        runs[-1].append(i)
    k = r.randrange(len(runs))
    sub = p.subpath(k)
    idx = runs[k]
    mon.check(len(sub) == len(idx), "subpath:count")
    got, inplace = times(sub, m, c["form"])
    check_image(list(got), idx, "subpath:image")
    after = R.snapshot(p)
    if inplace:
        check_image([p[i] for i in idx], idx, "subpath:backing")
        for i, (a, b) in enumerate(zip(before, after)):
            if i in idx:
                continue
            # the neighbours keep their shape; only where they join the subpath may they move
            follows = i == idx[-1] + 1
            mon.check(a[0] == b[0] and a[2:-2] == b[2:-2] and (a[1] == b[1] or follows), "subpath:others", lambda: "segment %d changed from %r to %r" % (i, a, b))
            if follows and idx[-1] + 1 < len(p):
                mon.check(R.near(b[1], R.xy(p[idx[-1]].end), 1e-9 * R.seg_scale(p)), "subpath:joint")
    else:
        mon.check(after == before, "subpath:operand", lambda: "%s changed the path" % c["form"])
    mon.ev("subpath")
    if lin and len(idx) > 1:
        mon.nontrivial()
