"""C02: path-data output, re-parsed, reproduces the same geometry."""
import re

from .. import gen
from .. import ref_path as R
from . import c01

ID = "C02"
RULE = (
    "random paths (parsed programs, then optionally transformed, edited, with recorded relative/smooth flags changed) written by "
    "d() in all nine relative x smooth modes, str(), each subpath's d()/str() and each segment's str(), re-parsed and compared "
    "segment by segment; command letters checked against the requested or recorded mode. Non-trivial: at least two segments; "
    "distinct by path and edits."
)
QUICK, THOROUGH = 9000, 150000
MIN = 1500
ASSUMPTIONS = ["comparison to 2e-10 of the coordinate scale; arcs to the deviation that 6-digit radii/rotation can cause (computed per arc)"]


def cases(r):
    while True:
        mode = gen.pick_mode(r)
        edits = []
        k = r.random()
        arcs = True
        if k < 0.25:
            arcs = r.random() < 0.5
            m = gen.matrix(r)
            edits.append(["mul", m])
        elif k < 0.5:
            arcs = False
            for _ in range(r.randint(1, 4)):
                edits.append(r.choice([
                    ["del", r.random()],
                    ["append", gen.plain(gen.program(r, n=r.randint(1, 3), mode=mode, arcs=False))],
                    ["iadd", gen.plain([gen.program(r, n=3, mode=mode, arcs=False)[-1]])],
                    ["insert", r.random(), "L %r,%r" % tuple(gen.point(r, mode))],
                    ["flags", r.randint(0, 1 << 30)],
                ]))
        elif k < 0.75:
            edits.append(["flags", r.randint(0, 1 << 30)])
        yield dict(
            prog=gen.program(r, mode=mode, arcs=arcs), edits=edits, fancy=0, seed=r.randint(0, 1 << 30), mode=mode,
            rel=[r.random() < 0.5 for _ in range(7)], split=r.random() < 0.5, explicit=r.random() < 0.5,
        )


def make(Path, Matrix, c):
    import random

    p = Path(gen.plain(c["prog"]))
    for n, e in enumerate(c["edits"]):
        if (c["seed"] + n) % 3:
            # written before it changes
            for relative in (None, True, False):
                for smooth in (None, True, False):
                    p.d(relative=relative, smooth=smooth)
            str(p), [str(s) for s in p], [s.d() for s in p.as_subpaths()]
        if e[0] == "mul":
            p *= Matrix(*e[1])
        elif e[0] == "del" and len(p) > 2:
            del p[1 + int(e[1] * (len(p) - 1))]
        elif e[0] == "append":
            p.append(e[1])
        elif e[0] == "iadd":
            p += e[1]
        elif e[0] == "insert":
            p.insert(1 + int(e[1] * (len(p) - 1)), e[2])
        elif e[0] == "flags":
            q = random.Random(e[1])
            for s in p:
                s.relative = q.random() < 0.5
                s.smooth = q.random() < 0.5
    return p


LETTER = re.compile("[A-DF-Za-df-z]")
BASE = dict(Move="M", Line="L", Close="Z", Arc="A", QuadraticBezier="QT", CubicBezier="CS")


def letters_ok(mon, segs, text, relative, smooth, where):
    """Monitor on the text itself: one command per segment, of the right case and kind."""
    ls = LETTER.findall(text)
    mon.check(len(ls) == len(segs), where + ":letters", lambda: "%d commands for %d segments: %s" % (len(ls), len(segs), text))
    for l, s in zip(ls, segs):
        want = s.relative if relative is None else relative
        mon.check(l.islower() == bool(want), where + ":case", lambda: "command %s, relative=%r recorded %r: %s" % (l, relative, s.relative, text))
        mon.check(l.upper() in BASE[type(s).__name__], where + ":letter", lambda: "%s for %r" % (l, s))
        if smooth is False or (smooth is None and not s.smooth):
            mon.check(l not in "SsTt", where + ":shorthand", lambda: "shorthand %s with smooth=%r, recorded %r" % (l, smooth, s.smooth))


def recorded(mon, p, prog, rel, exact, where):
    """d() without arguments gives back the commands the path was made of."""
    want = []
    for n, it in enumerate(prog):
        lower = it[0].islower() if rel is None else rel[n % len(rel)]
        for k, g in enumerate(it[1:] or [None]):
            l = "L" if it[0] in "HVhv" or (it[0] in "Mm" and k) else it[0].upper()
            want.append(l.lower() if lower else l.upper())
    text = p.d()
    got = LETTER.findall(text)
    if not exact:
        # whether rounded control points still are reflections is not claimed
        fold = dict(zip("STst", "CQcq"))
        got, want = [[fold.get(l, l) for l in ls] for ls in (got, want)]
    mon.check(got == want, where, lambda: "made of %s, written %s: %s" % ("".join(want), "".join(got), text))
    mon.ev("recorded-commands")


def fragments(mon, Path, p):
    """Single segments written with a current point."""
    for s in p:
        kind = type(s).__name__
        if kind in ("Move", "Close") or s.start is None:
            continue
        for relative in (None, True, False):
            for smooth in (None, True, False):
                for cp in (s.start, None):
                    text = s.d(cp, relative=relative, smooth=smooth) if cp is not None else s.d(relative=relative, smooth=smooth)
                    l = LETTER.findall(text)[0]
                    low = cp is not None and bool(s.relative if relative is None else relative)
                    mon.check(l.islower() == low, "fragment:case", lambda: "%r.d(%r, relative=%r), recorded %r, is %s" % (s, cp, relative, s.relative, text))
                    short = bool(s.smooth if smooth is None else smooth) and kind in ("CubicBezier", "QuadraticBezier")
                    mon.check((l in "SsTt") == short, "fragment:shorthand", lambda: "%r.d(smooth=%r), recorded %r, is %s" % (s, smooth, s.smooth, text))
                    whole = "M%.17g,%.17g" % (s.start.x, s.start.y) + text
                    got = list(Path(whole))[1:]
                    if short:
                        # the first control point is not part of a shorthand
                        t = type(s)(s.start, s.start, *([s.control2] if kind[0] == "C" else []), s.end)
                        R.same_segments(mon, [t], got, "fragment", arc_rel=2e-6)
                    else:
                        R.same_segments(mon, [s], got, "fragment", arc_rel=2e-6)
        mon.ev("fragment")


def run(c, mon):
    from svgio.basic import Matrix
    from svgio.path import Path

    p = make(Path, Matrix, c)
    for e in c["edits"]:
        mon.feat("edit:" + e[0])
    if len(p) == 0:
        return
    if len(p) > 1:
        mon.nontrivial(c["prog"], c["edits"])
    before = R.snapshot(p)
    exact = c["mode"] in ("grid", "int") and not c["edits"]
    for relative in (None, True, False):
        for smooth in (None, True, False):
            text = p.d(relative=relative, smooth=smooth)
            letters_ok(mon, list(p), text, relative, smooth, "d")
            q = Path(text)
            R.same_segments(mon, p, q, "d(relative=%s,smooth=%s)" % (relative, smooth), arc_rel=2e-6)
            mon.ev("round-trip")
            if exact and smooth is not False:
                # integer coordinates: reflections are exact, so recorded shorthands must survive
                rec = [it[0].upper() for it in c["prog"] for g in (it[1:] or [None])]
                for l, w, s in zip(LETTER.findall(text), rec, p):
                    if w in "ST":
                        mon.check(l.upper() == w, "d:recorded-shorthand", lambda: "recorded %s written %s: %s" % (w, l, text))
                    elif w in "CQ" and smooth is None:
                        mon.check(l.upper() == w, "d:recorded-command", lambda: "recorded %s written %s: %s" % (w, l, text))
                mon.ev("recorded-letters")
    whole = c["mode"] in ("grid", "int")
    if not c["edits"]:
        recorded(mon, p, c["prog"], None, whole, "parsed:commands")
        prog = c["prog"]
        if c["explicit"]:
            # curves that happen to be smooth but were asked for in full
            prog = [[{"S": "C", "T": "Q"}.get(it[0].upper(), it[0])] + it[1:] for it in prog]
        b = c01.build(Path, prog, R.interpret(c["prog"]), c["rel"], c["split"], tuple)
        recorded(mon, b, prog, c["rel"], whole, "built:commands")
    fragments(mon, Path, p)
    R.same_segments(mon, p, Path(str(p)), "str(path)", arc_rel=2e-6)
    subs = list(p.as_subpaths())
    if len(subs) > 1:
        mon.feat("subpaths:%d" % min(5, len(subs)))
    for sub in subs:
        segs = list(sub)
        for text, rel, sm in [(str(sub), None, None)] + [(sub.d(relative=x, smooth=y), x, y) for x in (None, True, False) for y in (None, True, False)]:
            letters_ok(mon, segs, text, rel, sm, "subpath.d")
            R.same_segments(mon, segs, Path(text), "subpath.d(%s,%s)" % (rel, sm), arc_rel=2e-6)
        mon.ev("subpath-round-trip")
    for s in p:
        if type(s).__name__ in ("Move", "Close") or s.start is None:
            continue
        R.same_segments(mon, [s], list(Path(str(s)))[1:], "str(segment)", arc_rel=2e-6)
        mon.ev("segment-round-trip")
        mon.state(type(s).__name__, s.relative, s.smooth, round(s.end.x, 1))
    mon.check(R.snapshot(p) == before, "writing-mutates", lambda: "path changed by writing: %r / %r" % (before, R.snapshot(p)))
