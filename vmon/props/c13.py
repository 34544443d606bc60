"""C13: results do not depend on numpy or scipy being installed."""
import contextlib
import importlib
import random
import sys

from .. import core, gen, segs
from .. import ref_path as R

ID = "C13"
RULE = (
    "the package is loaded four times, with imports of numpy, of scipy, of both and of neither made to fail (at load and during "
    "every call); random segments, paths and subpaths are evaluated, measured and boxed in each and the results compared, and the "
    "library monitors confirm that the blocked package was really absent. Non-trivial: a segment of a curved kind or a "
    "path with one; distinct by case."
)
QUICK, THOROUGH = 8000, 180000
MIN = 700
ASSUMPTIONS = [
    "lengths are requested to 1e-4, 1e-6 or 1e-9 (paths 1e-5) of the size and compared to 5e-3, 3e-4 or 2e-6 (paths 5e-3) of it: the pure Python bisection applies the requested "
    "error to every piece, not to their sum",
]
WORLDS = {"full": (), "no-scipy": ("scipy",), "no-numpy": ("numpy",), "bare": ("numpy", "scipy")}
_loaded = {}


@contextlib.contextmanager
def world(name):
    """The svgio modules of that world are current, its blocked packages cannot be imported."""
    blocked = WORLDS[name]
    gone = [m for m in sys.modules if m.split(".")[0] in blocked]
    ours = [m for m in sys.modules if m == "svgio" or m.startswith("svgio.")]
    saved = {m: sys.modules.pop(m) for m in gone + ours}
    for b in blocked:
        sys.modules[b] = None  # the import system reports a missing module
    try:
        if name in _loaded:
            sys.modules.update(_loaded[name])
        else:
            importlib.import_module("svgio.path")
            importlib.import_module("svgio.nodes")
        yield
    finally:
        _loaded[name] = {m: sys.modules.pop(m) for m in list(sys.modules) if m == "svgio" or m.startswith("svgio.")}
        for m in [m for m in sys.modules if m.split(".")[0] in blocked]:
            del sys.modules[m]
        sys.modules.update(saved)


def importable(name):
    try:
        importlib.import_module(name)
        return True
    except ImportError:
        return False


def cases(r):
    while True:
        k = r.random()
        ts = [r.random() for _ in range(4)] + [0, 1, r.choice([0.5, 0.25, 1e-9, 1e-5, 1 - 1e-5, 1 - 1e-7]), 1 - 10 ** -r.uniform(3, 9)]
        if r.random() < 0.4:  # asked for more than once
            ts += [r.choice(ts) for _ in range(r.randint(1, 3))]
        r.shuffle(ts)
        if k < 0.7:
            yield dict(kind="seg", spec=segs.spec(r, mode=r.choice(["grid", "int", "tame", "mixed"]), kinds="mlcqqCCCCaaAAA"), ts=ts, err=r.choice([1e-6, 1e-6, 1e-6, 1e-9, 1e-4]))
        elif k < 0.98:
            yield dict(kind="path", prog=gen.program(r, n=r.choice([1, 2, 3, 5]), repeat=False, mode=r.choice(["grid", "int", "tame"]), letters=r.choice(["LCQAZM", "QTCSLZM", "LHVZM", "LQAM", "M"])), ts=ts, first=r.choice(["point", "npoint", "length"]))
        else:
            yield dict(kind="path", prog=[], ts=ts, first="point")


def rows(x):
    if x is None:
        return None
    return [None if p is None else (float(p[0]), float(p[1])) for p in x]


def attempt(f):
    try:
        return ["ok", f()]
    except Exception as e:
        return ["error", type(e).__name__]


def measure(c, scale):
    """Everything observable, in the current world."""
    err = c.get("err", 1e-5) * scale
    out = {}
    ts = c["ts"] if len(c["ts"]) % 2 else tuple(c["ts"])
    if c["kind"] == "seg":
        s = segs.make_direct(c["spec"])
        out["points"] = attempt(lambda: rows([s.point(t) for t in ts]))
        out["npoints"] = attempt(lambda: rows(s.npoint(ts)))
        out["none"] = attempt(lambda: rows(s.npoint([])))
        out["bbox"] = attempt(lambda: tuple(map(float, s.bbox())))
        out["length"] = attempt(lambda: float(s.length(error=err)))
        if type(s).__name__ in ("Line", "Close", "QuadraticBezier", "Move"):
            out["exact-length"] = attempt(lambda: float(s.length()))
        return out
    from svgio.path import Path

    p = Path(gen.plain(c["prog"]))

    def points():
        return rows([p.point(t, error=err) for t in ts])

    def npoints():
        return rows(p.npoint(ts, error=err))

    def length():
        return float(p.length(error=err))

    steps = [("points", points), ("npoints", npoints), ("length", length)]
    steps.sort(key=lambda s: not s[0].startswith(c["first"]))
    for n, f in steps:
        out[n] = attempt(f)
    # measured alone, nothing remembered
    for n in ("npoints", "length"):
        p = Path(gen.plain(c["prog"]))
        out[n + "-alone"] = attempt(npoints if n == "npoints" else length)
    out["bboxes"] = attempt(lambda: [None if b is None else tuple(map(float, b)) for b in (s.bbox() for s in p.as_subpaths())] if len(p) else [])
    return out


def run(c, mon):
    if c["kind"] == "seg":
        cv = segs.Curve(c["spec"])
        scale = cv.scale
        k = c["spec"][0]
        if cv.tol() is None:
            mon.ev("arc-too-ill-conditioned")
            return
    else:
        scale = R.scale_of(R.interpret(c["prog"]))
        k = "path"
    results = {}
    for w in WORLDS:
        with world(w):
            results[w] = measure(c, scale)
            for m in ("numpy", "scipy", "scipy.integrate", "scipy.special"):
                if importable(m) == (m.split(".")[0] in WORLDS[w]):
                    raise RuntimeError("%s in world %s" % (m, w))  # the harness itself
            mon.ev("world:" + w)
    full = results["full"]
    for w, res in results.items():
        if w == "full":
            continue
        for q, (st, v) in res.items():
            st0, v0 = full[q]
            mon.check(st == st0, "success:%s:%s:%s" % (q, k, w), lambda: "%s of %r: %s %r, with numpy and scipy %s %r" % (q, c, st, v, st0, v0))
            mon.ev("compared:" + q)
            if st == "error":
                mon.check(v == v0, "error:%s:%s" % (q, k), lambda: "%s of %r raises %s, with numpy and scipy %s" % (q, c, v, v0))
                continue
            if "length" in q and not (k == "path" and not any(i[0] in "cCsSaA" for i in c["prog"])) and "exact" not in q:
                tol = (5e-3 if k == "path" else {1e-4: 5e-3, 1e-6: 3e-4, 1e-9: 2e-6}[c["err"]]) * scale
            elif k == "path" and q in ("points", "npoints", "npoints-alone"):
                exact = not any(i[0] in "cCsSaA" for i in c["prog"])  # lengths of lines and quadratics are closed forms
                tol = (1e-8 if exact else 1e-2) * scale
            else:
                tol = 1e-9 * scale
                if k in ("arc", "carc"):
                    tol = segs.Curve(c["spec"]).tol()
            mon.check(same(v, v0, tol), "value:%s:%s" % (q, k), lambda: "%s of %r without %s is %r, with %r" % (q, c, WORLDS[w], v, v0))
    if k in ("quad", "cubic", "arc", "carc") or k == "path" and any(i[0] in "cCsSqQtTaA" for i in c["prog"]):
        mon.nontrivial()
    mon.feat("kind:" + k)
    for w in results:
        mon.feat("world:" + w)
    if full.get("length", [0])[0] == "ok":
        mon.state(k, float("%.4g" % full["length"][1]))


def same(a, b, tol):
    if a is None or b is None:
        return a is b
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return abs(a - b) <= tol
