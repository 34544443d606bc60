"""Random list edits of a real Path in lockstep with a plain-list model of it (used by C03, C04, C06)."""
from copy import copy

from . import gen
from . import ref_path as R


class Item:
    """Model of one segment: kind and authoritative points (starts and close ends follow from the neighbours)."""

    def __init__(self, kind, end, ctrl=(), arc=None):
        self.kind, self.end, self.ctrl, self.arc = kind, end, tuple(ctrl), arc

    def __repr__(self):
        return "%s->%r" % (self.kind, self.end)


def item_of(seg):
    k = type(seg).__name__
    a = None
    if k == "Arc":
        a = (R.xy(seg.center), R.xy(seg.prx), R.xy(seg.pry), float(seg.sweep))
    return Item(k, R.xy(seg.end), R.ctrl_of(seg), a)


def items_of(segs):
    return [item_of(s) for s in segs]


def settle(model):
    """Close ends follow the latest move (or the first element)."""
    z = model[0].end if model else None
    for it in model:
        if it.kind == "Move":
            z = it.end
        elif it.kind == "Close":
            it.end = z
    return model


def check_path(mon, p, model, where):
    segs = list(p)
    mon.check(len(segs) == len(model) == len(p), where + ":count", lambda: "%d segments, list has %d: %r / %r" % (len(segs), len(model), segs, model))
    sc = max(R.seg_scale(segs), max([abs(v) for it in model for v in it.end or (0,)] or [1]))
    tol = 1e-11 * sc
    if segs:
        # what the path says of itself follows the edits
        mon.check(R.near(R.xy(p.current_point), R.xy(segs[-1].end), tol), where + ":current-point", lambda: "%r for %r" % (p.current_point, segs))
        first = segs[0].start if segs[0].start is not None else segs[0].end
        mon.check(R.near(R.xy(p.first_point), R.xy(first), tol), where + ":first-point", lambda: "%r for %r" % (p.first_point, segs))
    prev = None
    z = None
    for i, (s, it) in enumerate(zip(segs, model)):
        k = type(s).__name__
        mon.check(k == it.kind, where + ":kind", lambda: "index %d is %s, list has %s" % (i, k, it.kind))
        if prev is not None:
            mon.check(R.near(R.xy(s.start), R.xy(prev.end), tol), where + ":connection", lambda: "segment %d %r does not start at the end of %r" % (i, s, prev))
        if k == "Move":
            z = s.end
        if k == "Close" and z is not None:
            mon.check(R.near(R.xy(s.end), R.xy(z), tol), where + ":close", lambda: "close %d %r does not end at the move's %r" % (i, s, z))
        mon.check(R.near(R.xy(s.end), it.end, tol), where + ":end", lambda: "segment %d %r ends elsewhere than %r" % (i, s, it.end))
        for u, v in zip(R.ctrl_of(s), it.ctrl):
            mon.check(R.near(u, v, tol), where + ":control", lambda: "segment %d %r has controls %r" % (i, s, it.ctrl))
        if k == "Arc" and it.arc is not None:
            a = item_of(s).arc
            mon.check(
                all(R.near(u, v, tol) for u, v in zip(a[:3], it.arc[:3])) and abs(a[3] - it.arc[3]) < 1e-12,
                where + ":arc", lambda: "arc %d is %r, was %r" % (i, a, it.arc),
            )
        prev = s


def make_segment(r, mode, kinds="MLLQCAZ", starts=True):
    """A free-standing segment object; its start is often absent or wrong."""
    from svgio.path import Arc, Close, CubicBezier, Line, Move, QuadraticBezier

    k = r.choice(kinds)
    st = tuple(gen.point(r, mode)) if starts and r.random() < 0.5 else None
    e = tuple(gen.point(r, mode))
    if k == "M":
        return Move(e) if st is None else Move(st, e)
    if k == "L":
        return Line(st, e)
    if k == "Q":
        return QuadraticBezier(st, tuple(gen.point(r, mode)), e)
    if k == "C":
        return CubicBezier(st, tuple(gen.point(r, mode)), tuple(gen.point(r, mode)), e)
    if k == "A":
        return Arc(st or (0, 0), gen.positive(r, mode), gen.positive(r, mode), gen.number(r, "tame"), r.randint(0, 1), r.randint(0, 1), e)
    return Close() if st is None or r.random() < 0.5 else Close(st, e)


def fragment(r, mode, n=None, arcs=True, move=None):
    """Program of a free-standing text fragment (no current point needed by its first command)."""
    pr = gen.program(r, n=n or r.randint(1, 4), mode=mode, arcs=arcs)
    if move is None:
        move = r.random() < 0.4
    if not move:
        c = r.choice("LQC")
        pr[0] = [c, [gen.number(r, mode) for _ in range(gen.ARGS[c])]]
    return pr


def index(r, n, wild=0.08):
    if r.random() < wild:
        return r.choice([n, n + 3, -n - 1, -n - 4])
    return r.randint(-n, n - 1) if n else 0


def slc(r, n):
    def b():
        return None if r.random() < 0.25 else r.randint(-n - 2, n + 2)

    k = r.random()
    step = None if k < 0.5 else r.choice([1, 1, 2, -1, -2, 3, -3])
    return slice(b(), b(), step)


OPS = ["append", "append", "append_text", "insert", "insert", "insert_text", "extend", "extend_text", "extend_path", "iadd_text", "iadd_text",
       "iadd_path", "iadd_seg", "iadd_subpath", "set", "set", "set_text", "set_multi", "set_slice", "set_slice", "set_slice_text", "set_slice_path",
       "permute", "swap", "del", "del", "del_slice", "del_slice", "pop", "remove", "clear", "builder", "builder"]


def random_edit(r, p, model, mode, mon, ops=None):
    """Applies one random edit to the real path and the model. Returns the new model (or None when the edit was skipped)."""
    from svgio.path import Path

    op = r.choice(ops or OPS)
    n = len(model)
    new = list(model)
    real = None  # callable performing the edit on the real path
    if op in ("append", "iadd_seg"):
        s = make_segment(r, mode)
        new.append(item_of(s))
        if op == "append":
            real = lambda: p.append(s)
        else:
            real = lambda: p.__iadd__(s)
    elif op in ("append_text", "extend_text"):
        pr = fragment(r, mode)
        t = gen.spell(r, pr, 0.5)
        new += items_of(Path(t))
        real = (lambda: p.append(t)) if op == "append_text" else (lambda: p.extend(t))
    elif op == "insert":
        i = index(r, n + 1, 0.1)
        s = make_segment(r, mode)
        new.insert(i, item_of(s))
        real = lambda: p.insert(i, s)
    elif op == "insert_text":
        i = index(r, n + 1, 0.1)
        t = r.choice(["L %r,%r" % tuple(gen.point(r, mode)), "M %r %r" % tuple(gen.point(r, mode)), "Z", "Q 1,1 %r,%r" % tuple(gen.point(r, mode))])
        new.insert(i, items_of(Path(t))[0])
        real = lambda: p.insert(i, t)
    elif op in ("extend", "extend_path", "iadd_path", "iadd_subpath"):
        if op == "extend":
            segs = [make_segment(r, mode) for _ in range(r.randint(0, 4))]
            items = items_of(segs)
            how = r.choice([list, tuple, iter])
            real = lambda: p.extend(how(segs))
        else:
            q = Path(gen.spell(r, fragment(r, mode, move=True), 0.3))
            if op == "iadd_subpath":
                q = list(q.as_subpaths())[-1]
            items = items_of(q)
            real = (lambda: p.extend(q)) if op == "extend_path" else (lambda: p.__iadd__(q))
        new += items
    elif op == "iadd_text":
        if n == 0 or any(it.end is None for it in new):
            return None
        pr = gen.program(r, n=r.randint(1, 4), mode=mode)
        if r.random() < 0.6:
            pr = pr[1:] or pr
            if pr[0][0] in "SsTt" and new[-1].kind not in ("Line", "Move"):
                pr = [["L", gen.point(r, mode)]] + pr
        t = gen.spell(r, pr, 0.5)
        ctx, cur = [], None
        for it in new:
            ctx.append(R.Seg(it.kind, cur, it.end, *it.ctrl))
            cur = it.end
        k = len(ctx)
        R.interpret(pr, ctx)
        new += [Item(s.kind, s.end, s.ctrl) for s in ctx[k:]]
        real = lambda: p.__iadd__(t)
    elif op in ("set", "set_text"):
        i = index(r, n)
        if op == "set":
            v = make_segment(r, mode)
            it = item_of(v)
        else:
            v = r.choice(["L %r,%r" % tuple(gen.point(r, mode)), "M %r %r" % tuple(gen.point(r, mode)), "Z"])
            it = items_of(Path(v))[0]

        def mset():
            new[i] = it

        return _try(mon, op, p, model, new, mset, lambda: p.__setitem__(i, v))
    elif op == "set_multi":
        if n == 0:
            return None
        i = r.randint(-n, n - 1)

        def mset():
            raise ValueError

        return _try(mon, op, p, model, new, mset, lambda: p.__setitem__(i, "L 1,1 L 2,2"))
    elif op in ("set_slice", "set_slice_text", "set_slice_path"):
        s = slc(r, n)
        if op == "set_slice":
            if s.step not in (None, 1) and r.random() < 0.8:
                size = len(range(*s.indices(n)))
            else:
                size = r.randint(0, 4)
            v = [make_segment(r, mode) for _ in range(size)]
            items = items_of(v)
        elif op == "set_slice_path":
            v = Path(gen.spell(r, fragment(r, mode, move=True), 0.3))
            items = items_of(v)
        else:
            v = gen.spell(r, fragment(r, mode), 0.3)
            items = items_of(Path(v))

        def mset():
            new[s] = items

        return _try(mon, op, p, model, new, mset, lambda: p.__setitem__(s, v))
    elif op == "permute":
        if n < 3:
            return None
        a = r.randint(1, n - 1)
        b = r.randint(a, n)
        idx = list(range(a, b))
        if r.random() < 0.5:
            idx.reverse()
        else:
            r.shuffle(idx)
        v = [p[j] for j in idx]
        new[a:b] = [model[j] for j in idx]
        real = lambda: p.__setitem__(slice(a, b), v)
    elif op == "swap":
        if n < 3:
            return None
        a, b = r.randint(1, n - 1), r.randint(1, n - 1)
        new[a], new[b] = new[b], new[a]

        def real():
            x, y = p[a], p[b]
            p[a] = copy(y)
            p[b] = copy(x)

    elif op in ("del", "pop"):
        if op == "pop" and r.random() < 0.3:
            def mset():
                new.pop()

            return _try(mon, op, p, model, new, mset, lambda: p.pop())
        i = index(r, n)

        def mset():
            del new[i]

        return _try(mon, op, p, model, new, mset, (lambda: p.__delitem__(i)) if op == "del" else (lambda: p.pop(i)))
    elif op == "del_slice":
        s = slc(r, n)

        def mset():
            del new[s]

        return _try(mon, op, p, model, new, mset, lambda: p.__delitem__(s))
    elif op == "remove":
        if n == 0:
            return None
        v = copy(p[r.randint(0, n - 1)])
        i = list(p).index(v)
        del new[i]
        real = lambda: p.remove(v)
    elif op == "clear":
        if r.random() < 0.9:
            return None
        new = []
        real = lambda: p.clear()
    elif op == "builder":
        if n == 0:
            pt = tuple(gen.point(r, mode))
            new.append(Item("Move", pt))
            real = lambda: p.move(pt)
        else:
            k = r.choice(["move", "line", "quad", "cubic", "closed", "horizontal"])
            a, b, c = (tuple(gen.point(r, mode)) for _ in range(3))
            if k == "move":
                new.append(Item("Move", a))
                real = lambda: p.move(a)
            elif k == "line":
                new += [Item("Line", a), Item("Line", b)]
                real = lambda: p.line(a, b)
            elif k == "quad":
                new.append(Item("QuadraticBezier", b, [a]))
                real = lambda: p.quad(a, b)
            elif k == "cubic":
                new.append(Item("CubicBezier", c, [a, b]))
                real = lambda: p.cubic(a, b, c)
            elif k == "closed":
                new.append(Item("Close", None))
                real = lambda: p.closed()
            else:
                if new[-1].end is None:
                    return None
                new.append(Item("Line", (a[0], settle(clone(new))[-1].end[1])))
                real = lambda: p.horizontal(a[0])
    if new and new[0].kind != "Move":
        return None
    mon.ev("edit:" + op)
    real()
    return settle(clone(new))


def clone(model):
    return [Item(it.kind, it.end, it.ctrl, it.arc) for it in model]


def _try(mon, op, p, model, new, on_model, on_real):
    """Edit that may raise: the real path must raise what a list raises, and then stay as it was."""
    err = None
    try:
        on_model()
    except (IndexError, ValueError) as e:
        err = type(e)
    if err is None:
        if new and new[0].kind != "Move":
            return None
        mon.ev("edit:" + op)
        on_real()
        return settle(clone(new))
    mon.ev("edit-refused:" + op)
    before = R.snapshot(p)
    try:
        on_real()
    except (IndexError, ValueError) as e:
        mon.check(isinstance(e, err), "edit-error", lambda: "%s raised %r, a list raises %s" % (op, e, err.__name__))
    else:
        mon.fail("edit-accepted:" + op, "%s was accepted where a list raises %s" % (op, err.__name__))
    mon.check(R.snapshot(p) == before, "refused-edit-changes", lambda: "%s raised but changed the path" % op)
    return model
