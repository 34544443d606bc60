"""C04: measurements always describe the path as it is now."""
import math
import random
from copy import copy

from .. import edits, gen
from .. import ref_path as R

ID = "C04"
RULE = (
    "random interleavings of measurements (length, point, npoint) with every mutating operation (list edits, += forms, *= and @= by "
    "matrices, reverse, direct_close, arc approximation, and edits/reversal/multiplication through subpaths); every measurement is "
    "compared with the same measurement on a path freshly built from copies of the current segments. Non-trivial: a measurement "
    "was taken both before and after a mutation; distinct by path and history seed."
)
QUICK, THOROUGH = 22000, 450000
MIN = 1500
ASSUMPTIONS = ["default error argument", "segments are changed through the path or its subpaths, not by assigning to their points"]

T = [0.0, 0.1, 0.25, 0.5, 0.77, 0.9, 1.0]


def cases(r):
    while True:
        mode = gen.pick_mode(r)
        yield dict(
            prog=gen.program(r, n=r.choice([2, 3, 4, 6, 9]), mode=mode, close_rate=0.25,
                       letters=r.choice(["LHVZM", "LHVZM", "LQTZM", "LQAZM", "LCAQZM", "CSZM"])),
            mode=mode, seed=r.randint(0, 1 << 40), n=r.choice([2, 3, 5, 8]),
        )


def eq(a, b, tol):
    if a is None or b is None:
        return a is b
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= tol or a == b


def fresh(Path, p):
    segs = [copy(s) for s in list(p)]
    return Path(*segs) if len(segs) != 1 else Path(segs[0])


def measure(r, p, mon, Path, what=None):
    """Takes one or more measurements and compares each with a fresh path."""
    before = R.snapshot(p)
    f = fresh(Path, p)
    sc = R.seg_scale(list(p))
    tol = 1e-9 * sc * max(1, len(before))
    kinds = [what] if what else r.sample(["length", "point", "npoint", "boxes"], r.choice([1, 1, 2, 3, 4]))
    for k in kinds:
        mon.ev("measure:" + k)
        if k == "length":
            a, b = p.length(), f.length()
            mon.check(eq(a, b, tol), "stale:length", lambda: "length %r, a fresh copy has %r: %r" % (a, b, list(p)))
        elif k == "point":
            for t in r.sample(T, 3):
                a, b = p.point(t), f.point(t)
                mon.check((a is None) == (b is None) and (a is None or eq(a[0], b[0], tol) and eq(a[1], b[1], tol)), "stale:point",
                          lambda: "point(%g) %r, a fresh copy has %r: %r" % (t, a, b, list(p)))
        elif k == "boxes":
            for s in list(p):
                if type(s).__name__ == "Move":
                    continue
                a, b = s.bbox(), copy(s).bbox()
                u, v = s.length(), copy(s).length()
                mon.check(eq(u, v, tol), "stale:segment-length", lambda: "%r is %r long, a copy %r" % (s, u, v))
                mon.check(all(eq(u, v, tol) for u, v in zip(a, b)), "stale:bbox", lambda: "%r is bounded by %r, a copy by %r" % (s, a, b))
            for sub, of in zip(p.as_subpaths(), f.as_subpaths()):
                a, b = sub.bbox(), of.bbox()
                mon.check((a is None) == (b is None) and (a is None or all(eq(u, v, tol) for u, v in zip(a, b))), "stale:subpath-bbox", lambda: "%r is bounded by %r, a fresh one by %r" % (list(sub), a, b))
        else:
            ts = r.sample(T, r.randint(1, len(T)))
            a, b = p.npoint(ts), f.npoint(ts)
            mon.check((a is None) == (b is None), "stale:npoint")
            if a is not None:
                mon.check(len(a) == len(b) == len(ts), "npoint:count")
                for u, v, t in zip(a, b, ts):
                    mon.check(eq(u[0], v[0], tol) and eq(u[1], v[1], tol), "stale:npoint",
                              lambda: "npoint at %g is %r, a fresh copy has %r: %r" % (t, list(u), list(v), list(p)))
    mon.check(R.snapshot(p) == before, "measuring-mutates", lambda: "path changed by measuring: %r / %r" % (before, R.snapshot(p)))


def usable(p):
    return all(s.end is not None and (s.start is not None or type(s).__name__ == "Move") for s in list(p))


def mutate(r, p, c, mon):
    """One mutation; returns its name or None when nothing was done."""
    from svgio.basic import Matrix

    k = r.choice(["edit"] * 10 + ["mul", "imatmul", "reverse", "reverse", "direct_close", "cubics", "quads"] + ["sub"] * 7)
    n = len(p)
    if k == "edit":
        m = edits.random_edit(r, p, edits.settle(edits.items_of(p)), c["mode"], mon)
        return None if m is None else k
    if n == 0:
        return None
    if k == "mul":
        p *= Matrix(*gen.matrix(r))
    elif k == "imatmul":
        p @= r.choice([Matrix(*gen.matrix(r)), "scale(2)", "translate(3,4) rotate(30)"])
    elif k == "reverse":
        p.reverse()
    elif k == "direct_close":
        p.direct_close()
    elif k == "cubics":
        p.approximate_arcs_with_cubics()
    elif k == "quads":
        p.approximate_arcs_with_quads()
    else:
        subs = list(p.as_subpaths())
        i = r.randrange(len(subs))
        sub = subs[i]
        k = r.choice(["sub.reverse", "sub.reverse", "sub.mul", "sub.set", "sub.del", "sub.iadd", "sub.set_slice", "sub.del_slice"])
        m = len(sub)
        if k == "sub.reverse":
            sub.reverse()
        elif k == "sub.mul":
            sub *= Matrix(*gen.matrix(r))
        elif k == "sub.set":
            if m < 2:
                return None
            sub[r.randint(1, m - 1)] = edits.make_segment(r, c["mode"], "LLQC")
        elif k == "sub.del":
            if m < 2:
                return None
            del sub[r.randint(1, m - 1)]
        elif k == "sub.iadd":
            sub += r.choice(["L 1,2", edits.make_segment(r, c["mode"], "LLQC")])
        elif k == "sub.set_slice":
            a = r.randint(1, m)
            sub[a:r.randint(a, m)] = [edits.make_segment(r, c["mode"], "LLQC") for _ in range(r.randint(0, 3))]
        else:
            a = r.randint(1, m)
            del sub[a:r.randint(a, m)]
    mon.ev("mutate:" + k)
    return k


def run(c, mon):
    from svgio.path import Path

    r = random.Random(c["seed"])
    p = Path(gen.plain(c["prog"]))
    if r.random() < 0.8:
        measure(r, p, mon, Path)
    done = []
    for _ in range(c["n"]):
        k = mutate(r, p, c, mon)
        if k is None:
            continue
        if not usable(p):
            break
        done.append(k)
        if r.random() < 0.8:
            measure(r, p, mon, Path)
            mon.feat("after:" + k)
    if done:
        measure(r, p, mon, Path)
        mon.nontrivial()
        mon.state(tuple(done), len(p))
