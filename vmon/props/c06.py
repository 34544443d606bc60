"""C06: subpaths partition the path and act as a live window on it."""
import random
from copy import copy

from .. import edits, gen
from .. import ref_path as R

ID = "C06"
RULE = (
    "random paths with 1-8 subpaths; the split is checked against the moves, each view's length, every integer index, random "
    "slices, iteration, equality, d() and bbox() against its segments alone, and sequences of assignments, deletions, additions, "
    "multiplications and reversals through a view against a list model of the whole path. Non-trivial: at least two subpaths and "
    "one effective edit through a view; distinct by path and seed."
)
QUICK, THOROUGH = 17000, 480000
MIN = 1500
ASSUMPTIONS = ["paths that start with a move; a view is not used after its backing path was edited elsewhere"]


def cases(r):
    while True:
        mode = gen.pick_mode(r)
        n = r.choice([3, 5, 8, 12, 16])
        prog = gen.program(r, n=n, mode=mode, close_rate=0.2, letters=r.choice(["LHVZMM", "LQCAZMM", "LQCAMM", "MMLZ", "LCQSTZM"]))
        yield dict(prog=prog, mode=mode, seed=r.randint(0, 1 << 40), n=r.choice([1, 2, 3, 5]), lead=r.random() < 0.05)


def err(f):
    try:
        return None, f()
    except (IndexError, ValueError) as e:
        return type(e), None


def view(mon, r, sub, segs, where):
    """Monitor: the view shows exactly these segment objects."""
    from svgio.path import Path

    n = len(segs)
    mon.check(len(sub) == n, where + ":len", lambda: "view has %d of %d segments" % (len(sub), n))
    got = list(sub)
    mon.check(len(got) == n and all(a is b for a, b in zip(got, segs)), where + ":iter", lambda: "%r / %r" % (got, segs))
    again = [s for s in iter(iter(sub))]
    mon.check(len(again) == n and all(a is b for a, b in zip(again, segs)) and [s for s in sub] == again, where + ":iter-again", lambda: "%r / %r" % (again, segs))
    it = iter(sub)
    mon.check([next(it, None) for _ in range(n + 2)] == segs + [None, None], where + ":iter-end", lambda: repr(segs))
    for i in range(-n - 2, n + 2):
        a, b = err(lambda: sub[i]), err(lambda: segs[i])
        mon.check(a[0] is b[0] and a[1] is b[1], where + ":index", lambda: "view[%d] of %d: %r, expected %r" % (i, n, a, b))
    for _ in range(6):
        s = edits.slc(r, n)
        a, b = sub[s], segs[s]
        mon.check(len(a) == len(b) and all(x is y for x, y in zip(a, b)), where + ":slice", lambda: "view[%r] of %d: %r, expected %r" % (s, n, a, b))
    alone = Path(*[copy(s) for s in segs]) if n != 1 else Path(copy(segs[0]))
    mon.check(sub == alone and not (sub != alone), where + ":eq", lambda: "view differs from its segments: %r / %r" % (sub, alone))
    mon.check(not sub == Path(*[copy(s) for s in segs + segs[-1:]]) or n == 0, where + ":eq-longer")
    for rel in (None, True, False):
        for sm in (None, True, False):
            mon.check(sub.d(relative=rel, smooth=sm) == alone.d(relative=rel, smooth=sm), where + ":d", lambda: "%s / %s" % (sub.d(relative=rel, smooth=sm), alone.d(relative=rel, smooth=sm)))
    mon.check(str(sub) == alone.d(), where + ":str")
    boxes = [s.bbox() for s in segs if type(s).__name__ != "Move"]
    bb = sub.bbox()
    if not boxes:
        mon.check(bb is None, where + ":bbox", lambda: "box %r of nothing drawn" % (bb,))
    else:
        want = (min(b[0] for b in boxes), min(b[1] for b in boxes), max(b[2] for b in boxes), max(b[3] for b in boxes))
        mon.check(tuple(bb) == want, where + ":bbox", lambda: "box %r, its segments cover %r" % (bb, want))
    mon.ev("view-checked")


def split(segs):
    runs = [[]]
    for i, s in enumerate(segs):
        if i and type(s).__name__ == "Move":
            runs.append([])
        runs[-1].append(s)
    return runs


def partition(mon, r, p, where, deep=True):
    segs = list(p)
    runs = split(segs)
    subs = list(p.as_subpaths())
    mon.check(len(subs) == len(runs), where + ":count", lambda: "%d subpaths, expected %d: %r" % (len(subs), len(runs), segs))
    mon.check(p.count_subpaths() == len(runs), where + ":count_subpaths", lambda: "%r, expected %d" % (p.count_subpaths(), len(runs)))
    for i, (sub, run) in enumerate(zip(subs, runs)):
        got = list(sub)
        mon.check(len(got) == len(run) == len(sub) and all(a is b for a, b in zip(got, run)), where + ":run", lambda: "subpath %d is %r, expected %r" % (i, got, run))
        again = list(p.subpath(i))
        mon.check(len(again) == len(run) and all(a is b for a, b in zip(again, run)), where + ":subpath(i)", lambda: "subpath(%d)" % i)
    if deep:
        for sub, run in zip(subs, runs):
            view(mon, r, sub, run, "view")
    mon.state(tuple(map(len, runs)))
    return subs, runs


def run(c, mon):
    from svgio.basic import Matrix
    from svgio.path import Path

    r = random.Random(c["seed"])
    p = Path(gen.plain(c["prog"]))
    if c["lead"]:
        # a path that does not begin with a move still splits at its moves
        segs = [copy(s) for s in p][1:]
        if len(segs) > 1:
            partition(mon, r, Path(*segs), "lead")
            mon.feat("no-leading-move")
    before = R.snapshot(p)
    subs, runs = partition(mon, r, p, "partition")
    mon.check(R.snapshot(p) == before, "reading-mutates")
    mon.feat("subpaths:%d" % len(subs))
    if len(p) == 0:
        return
    i = r.randrange(len(subs))
    sub, a = subs[i], sum(len(x) for x in runs[:i])
    done = 0
    for _ in range(c["n"]):
        segs = list(p)
        b = a + len(sub)
        model = edits.settle(edits.items_of(p))
        win = model[a:b]
        n = len(win)
        mode = c["mode"]
        op = r.choice(["set", "set", "set_text", "set_slice", "set_slice", "del", "del_slice", "iadd_text", "iadd_path", "iadd_seg", "mul", "mul_text",
                       "reverse", "pure_add", "pure_mul", "radd", "copy"])
        new = list(win)
        keep = R.snapshot(p)
        if op in ("pure_add", "pure_mul", "radd", "copy"):
            mon.ev("pure:" + op)
            if op == "pure_add":
                v = r.choice(["L 1,2", Path("M1,1L2,2"), edits.make_segment(r, mode, "LQC")])
                extra = edits.items_of(Path(v) if isinstance(v, str) else v if isinstance(v, Path) else [v])
                res = sub + v
                check_items(mon, list(res), edits.items_of(sub) + extra, "add")
            elif op == "pure_mul":
                m = gen.matrix(r)
                res = sub * Matrix(*m) if r.random() < 0.5 else Matrix(*m) * sub if False else sub * Matrix(*m)
                check_mapped(mon, segs[a:b], list(res), m, "mul")
            elif op == "copy":
                res = copy(sub)
                check_items(mon, list(res), edits.items_of(sub), "copy")
            else:
                v = r.choice(["M5,5", edits.make_segment(r, mode, "M")])
                res = v + sub
                check_items(mon, list(res), edits.items_of(Path(v) if isinstance(v, str) else [v]) + edits.items_of(sub), "radd")
            mon.check(R.snapshot(p) == keep, "pure-mutates:" + op, lambda: "%s changed the backing path" % op)
            # the result shares nothing with the path
            for s in list(res):
                if s.end is not None:
                    s.end.x += 1000
            mon.check(R.snapshot(p) == keep, "pure-shares:" + op, lambda: "%s shares points with the backing path" % op)
            continue
        if op in ("mul", "mul_text"):
            m = gen.matrix(r)
            old = [copy(s) for s in segs[a:b]]
            if op == "mul":
                sub *= Matrix(*m)
            else:
                m = [2, 0, 0, 2, 3, 4]
                sub *= "matrix(2,0,0,2,3,4)"
            mon.ev("write:" + op)
            check_mapped(mon, old, list(sub), m, "imul")
            model[a:b] = edits.items_of(sub)
        elif op == "reverse":
            kinds = [it.kind for it in win]
            if "Close" in kinds[:-1] or "Move" in kinds[1:]:
                continue
            old = edits.clone(win)
            sub.reverse()
            mon.ev("write:" + op)
            got = [it.kind.replace("Close", "Line") for it in edits.items_of(sub)]
            mon.check(sorted(got) == sorted(k.replace("Close", "Line") for k in kinds), "reverse:kinds", lambda: "%r / %r" % (old, list(sub)))
            model[a:b] = edits.items_of(sub)
        else:
            if op in ("set", "set_text"):
                k = edits.index(r, n)
                v = edits.make_segment(r, mode, "LLQCZ") if op == "set" else r.choice(["L 3,4", "Z"])
                it = edits.items_of([v] if op == "set" else Path(v))[0]

                def on_model():
                    new[k] = it

                on_real = lambda: sub.__setitem__(k, v)
            elif op == "set_slice":
                s = edits.slc(r, n)
                size = len(range(*s.indices(n))) if s.step not in (None, 1) and r.random() < 0.8 else r.randint(0, 3)
                v = [edits.make_segment(r, mode, "LLQCZ") for _ in range(size)]
                items = edits.items_of(v)

                def on_model():
                    new[s] = items

                on_real = lambda: sub.__setitem__(s, v)
            elif op == "del":
                k = edits.index(r, n)

                def on_model():
                    del new[k]

                on_real = lambda: sub.__delitem__(k)
            elif op == "del_slice":
                s = edits.slc(r, n)

                def on_model():
                    del new[s]

                on_real = lambda: sub.__delitem__(s)
            else:
                if op == "iadd_text":
                    v = gen.spell(r, edits.fragment(r, mode, n=r.randint(1, 3), move=False), 0.3)
                    extra = edits.items_of(Path(v))
                elif op == "iadd_path":
                    v = Path(gen.spell(r, edits.fragment(r, mode, n=r.randint(1, 3)), 0.3))
                    extra = edits.items_of(v)
                else:
                    v = edits.make_segment(r, mode, "LLQCZ")
                    extra = edits.items_of([v])

                def on_model():
                    new.extend(extra)

                same = sub

                def on_real():
                    out = same.__iadd__(v)
                    mon.check(out is same, "iadd-rebinds", "in-place addition returned something else than the view")

            e, _ = err(on_model)
            if e is None and not (new and new[0].kind == "Move") and not (not new and len(model) > n):
                continue
            e2, _ = err(on_real)
            mon.check(e is e2 or e is not None and e2 is not None, "write-error:" + op, lambda: "%s raised %r, a list raises %r" % (op, e2, e))
            if e is not None:
                mon.ev("refused:" + op)
                mon.check(R.snapshot(p) == keep, "refused-edit-changes:" + op)
                continue
            mon.ev("write:" + op)
            model[a:b] = new
        model = edits.settle(edits.clone(model))
        edits.check_path(mon, p, model, "write:" + op)
        now = list(p)
        size = len(now) - (len(segs) - n)
        mon.check(all(x is y for x, y in zip(now[:a], segs[:a])) and all(x is y for x, y in zip(now[a + size:], segs[b:])), "outside:" + op,
                  lambda: "segments outside the view were exchanged by %s" % op)
        view(mon, r, sub, now[a:a + size], "live:" + op)
        done += 1
        if size == 0:
            break
    if done:
        partition(mon, r, p, "after", deep=False)
        if len(runs) > 1:
            mon.nontrivial()


def check_items(mon, got, items, where):
    mon.check(len(got) == len(items), where + ":count", lambda: "%r / %r" % (got, items))
    sc = R.seg_scale(got)
    z = None
    for s, it in zip(got, items):
        k = type(s).__name__
        if k == "Move":
            z = R.xy(s.end)
        mon.check(k == it.kind, where + ":kind", lambda: "%r / %r" % (got, items))
        if k != "Close":
            mon.check(R.near(R.xy(s.end), it.end, 1e-9 * sc), where + ":end", lambda: "%r / %r" % (got, items))
        elif z is not None:
            mon.check(R.near(R.xy(s.end), z, 1e-9 * sc), where + ":close", lambda: "%r / %r" % (got, items))


def check_mapped(mon, old, new, m, where):
    mon.check(len(old) == len(new), where + ":count")
    f = lambda q: (m[0] * q[0] + m[2] * q[1] + m[4], m[1] * q[0] + m[3] * q[1] + m[5])
    sc = max(R.seg_scale(old), R.seg_scale(new))
    for a, b in zip(old, new):
        mon.check(type(a) is type(b), where + ":kind")
        mon.check(R.near(f(R.xy(a.end)), R.xy(b.end), 1e-9 * sc), where + ":end", lambda: "%r became %r" % (a, b))
        for u, v in zip(R.ctrl_of(a), R.ctrl_of(b)):
            mon.check(R.near(f(u), v, 1e-9 * sc), where + ":control", lambda: "%r became %r" % (a, b))
