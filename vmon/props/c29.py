"""C29: malformed text never hangs, never corrupts, and fails only with ValueError."""
import math
import random
import re

from .. import gen
from .. import ref_path as R

ID = "C29"
RULE = (
    "three workloads. (1) grammatical path data damaged at a random place (cut short, illegal character, number removed, bad "
    "command appended): the path must hold exactly the segments an independent lexer + interpreter of the undamaged front part "
    "gives. (2) an existing path given damaged text by parse, +=, append, extend, insert, item/slice assignment: previous segments "
    "kept, connection rules hold. (3) arbitrary, mutated, spliced and very long texts to every text reader (path, transform list "
    "with and without context, colour, length, angle, viewBox, preserveAspectRatio): a well-formed value or ValueError, under a "
    "processor-time watchdog. Non-trivial: the text is not accepted whole (1, 2), or any text of three characters or more (3)."
)
QUICK, THOROUGH = 390000, 8000000
MIN = 10000
ASSUMPTIONS = [
    "stopping silently at an error and raising ValueError are both accepted; so are both readings of a number after a close command",
    "non-termination is 100 s of processor time on one text",
]

NUM = re.compile(r"[-+]?(?:[0-9]+(?:\.[0-9]+)?|\.[0-9]+)(?:[eE][-+]?[0-9]+)?")
SKIP = re.compile(r"[ ,\t\n\x0c\r]*")


def lex(text):
    """Complete argument groups before the first error: (program, position, status); status unclear: readings differ, compare nothing."""
    prog = []
    pos = 0
    n = len(text)

    def skip(q):
        return SKIP.match(text, q).end()

    while True:
        pos = skip(pos)
        if pos >= n:
            return prog, n, "ok"
        c = text[pos]
        if c not in "MmZzLlHhVvCcSsQqTtAa":
            return prog, pos, "error"
        pos += 1
        if c in "zZ":
            prog.append([c])
            q = skip(pos)
            if NUM.match(text, q):
                return prog, q, "close"
            continue
        U = c.upper()
        item = [c]
        need = gen.ARGS[U]
        while True:
            g = []
            q = pos
            while len(g) < need:
                q = skip(q)
                if U == "A" and len(g) in (3, 4):
                    if q < n and text[q] in "01":
                        g.append(int(text[q]))
                        q += 1
                        continue
                    break
                m = NUM.match(text, q)
                if m is None:
                    break
                g.append(float(m.group()))
                q = m.end()
            if len(g) == need:
                item.append(g)
                pos = q
                continue
            closing = q < n and text[q] in "zZ"
            if not g and len(item) > 1:
                break  # the next command, the end, or an error noticed above
            if closing:
                if U in "LTQCSA" and len(g) == need - 2:
                    item.append(g + ["z"])
                    pos = q
                    break
                if U in "LTQCSAM":
                    return prog, q, "unclear"
            if len(item) > 1:
                prog.append(item)
            return prog, q, "error"
        prog.append(item)


BAD = ["L 5", "C 1,2 3,4 5", "A 1 1 0 2 0 5 5", "$$$", "X 1 2", "Q 1", "T", "H", "V z", "l", "S 1 2 3 4 5 6", "m", "M", "M 4", "A 1 1 0 1", "a 5 5 5 0 1 1",
       "L 1 2 3", "A 2 3 4 0 0 5 6 7", "h x", "L nan nan", "L 1,1 2", "c 1", "L .", "L -", "L 1e 2", "L 1..2", "#", "L 1,1\x00 L 2,2", "é", "L ٣ ٤", "z 4", "A 1 1 0 5 5 5 5"]


def damage(r, text):
    k = r.random() if NUM.search(text) else 1.0
    if k < 0.3:
        return text[: r.randint(0, len(text))]
    if k < 0.5:
        i = r.randint(0, len(text))
        return text[:i] + r.choice("#x!*%$@;:_()[]{}'\"\\b~^&|<>?/wjkn") + text[i:]
    if k < 0.65:
        ms = list(NUM.finditer(text))
        m = r.choice(ms)
        return text[: m.start()] + " " + text[m.end():]
    if k < 0.75:
        i = r.randrange(len(text))
        return text[:i] + r.choice(" -.e+z") + text[i + r.randint(0, 1):]
    if k < 0.9:
        return text + " " + r.choice(BAD)
    i = r.randint(0, len(text))
    return text[:i] + " " + r.choice(BAD) + " " + text[i:]


WORDS = ["matrix(", "translate(", "translateX(", "scale(", "rotate(", "skew(", "skewX(", "skewY(", "(", ")", ",", " ", "1", "-2.5", "3e2", "1e400", "-1e999", "1e-400",
         "deg", "rad", "grad", "turn", "%", "cm", "mm", "px", "in", "pt", "pc", "em", "rgb(", "rgba(", "hsl(", "hsla(", "#", "#ff", "#12345", "none", "red",
         "transparent", "currentColor", "inherit", "M", "L", "A", "z", "C", "nan", "inf", "-", "+", ".", "e", "E5", "0x10", "1_0", "1,2,3", "0 0 10 10", "0,0,0,0",
         "xMidYMid", "meet", "slice", "defer", "url(#a)", "rgb(1,2,3)", "rgb(1%,2%,3%)", "hsl(1,2%,3%)", "\x00", "\ufeff", "\u0661", "\u00b2", "\u2002", "\u00bd", "\n", "\t", "é",
         "None", "True", "[]", "{}", "%s", "{0}", "\\", "'", '"', ";", "1e5", "99999999999999999999", "+-1", "--1", "1-2", "1.2.3", ".5.5", "0" * 30, "rotate(30", "scale()"]

VALID = dict(
    path=["M0,0 L1,1 Z", "M0,0 A 5 3 20 0 1 4 4", "m1 1 q 1 2 3 4 t 5 5 z", "M0 0C1 2 3 4 5 6S7 8 9 10"],
    matrix=["translate(10cm, 5%) rotate(30deg)", "matrix(1,0,0,1,2,3)", "scale(2) skewX(4)", "rotate(1,2,3) translate(5)", "skew(1rad,2turn)", "translateY(5pt)"],
    color=["#ffF", "#12345678", "rgb(1,2,3)", "rgba(10%,20%,30%,.5)", "hsl(120deg, 50%, 50%)", "hsla(1turn,2%,3%,0.4)", "medium sea green", "none"],
    length=["10cm", "5%", "-2.5e3mm", "7", "3em", "1pc"],
    angle=["30deg", "1.5rad", "100grad", "0.25turn", "25%", "45"],
    viewbox=["0 0 100 50", "-1,-2,3.5,4e1", "0,0 10 10"],
    par=["xMidYMid meet", "none", "xMinYMax slice", "defer xMaxYMid"],
)
KINDS = ["path", "path", "matrix", "matrix", "color", "color", "length", "angle", "viewbox", "par"]


def fuzz_text(r, kind):
    k = r.random()
    base = r.choice(VALID[kind])
    if kind == "path" and r.random() < 0.5:
        base = gen.spell(r, gen.program(r, n=r.randint(1, 5)))
    if k < 0.15:
        t = "".join(r.choice(WORDS) for _ in range(r.randint(0, 12)))
    elif k < 0.25:
        t = "".join(chr(r.choice([r.randint(32, 126), r.randint(0, 255), r.randint(0, 0x2FFF)])) for _ in range(r.randint(0, 15)))
    elif k < 0.55:
        t = base
        for _ in range(r.randint(1, 4)):
            i = r.randint(0, len(t))
            j = i + r.choice([0, 0, 1, 1, 2, 5])
            t = t[:i] + r.choice(["", "", r.choice(WORDS), r.choice("0123456789.,-+eE%() zM#")]) + t[j:]
    elif k < 0.62 and kind in ("matrix", "color", "viewbox"):
        # the right form with any number of parameters of any kind
        unit = lambda: r.choice(["", "", "", "deg", "cm", "%", "rad", "px", "turn", "ex", "?"])
        args = lambda: r.choice([",", " ", ", "]).join(str(gen.number(r, "int")) + unit() for _ in range(r.randint(0, 8)))
        fs = dict(matrix=["matrix", "translate", "translateX", "translateY", "scale", "scaleX", "scaleY", "rotate", "skew", "skewX", "skewY"], color=["rgb", "rgba", "hsl", "hsla"], viewbox=[""])[kind]
        t = " ".join((r.choice(fs) + "(%s)" if kind != "viewbox" else "%s") % args() for _ in range(r.choice([1, 1, 2])))
    elif k < 0.7:
        o = r.choice(VALID[r.choice(KINDS)])
        t = base[: r.randint(0, len(base))] + o[r.randint(0, len(o)):]
    elif k < 0.8:
        t = base[: r.randint(0, len(base))]
    elif k < 0.9:
        t = r.choice(["", base]) + r.choice(gen.constants()[1] or [""]) + r.choice(["", base])
    elif k < 0.97:
        # every number replaced by a hostile one
        t = NUM.sub(lambda m: r.choice([m.group(), m.group(), "1e400", "-1e400", "1e308", "1e-320", "0", "-0", "9" * 40, "1e154", "-1e160", "00"]), base)
    else:
        return dict(rep=[r.choice(["", base]), r.choice(WORDS + [base, " ", "0", "1 ", "(", "a(", "rgb", "0.", ".0", "1e", "-", ", ", "\n"]), r.choice([50, 500, 3000]), r.choice(["", base, "x", "#"])])
    return t


def cases(r):
    while True:
        k = r.random()
        if k < 0.4:
            pr = gen.program(r, n=r.choice([1, 2, 3, 4, 6, 9]), mode=r.choice(["int", "grid", "tame"]))
            t = gen.spell(r, pr, r.choice([0, 0.5, 1])) if r.random() < 0.7 else gen.plain(pr)
            for _ in range(1 if r.random() < 0.85 else 2):
                t = damage(r, t)
            yield dict(k="prefix", text=t)
        elif k < 0.6:
            mode = "int"
            base = gen.plain(gen.program(r, n=r.randint(2, 8), mode=mode))
            t = gen.plain(gen.program(r, n=r.randint(1, 4), mode=mode))
            if r.random() < 0.3:
                t = " ".join(r.choice(BAD) for _ in range(r.randint(1, 2)))
            else:
                t = damage(r, t)
            yield dict(k="edit", base=base, text=t, op=r.choice(OPS), i=r.random(), j=r.random(), st=r.choice([None, None, None, 1, 2, -1]))
        else:
            kind = r.choice(KINDS)
            yield dict(k="fuzz", kind=kind, text=fuzz_text(r, kind), ctx=r.choice([0, 0, 1, 2]))


OPS = ["parse", "iadd", "iadd", "append", "extend", "insert", "set", "set", "slice", "slice", "add"]


def corpus():
    for kind in sorted(set(KINDS)):
        for t in VALID[kind] + ["", " ", "\n", "\x00", "1e999", "-", "."]:
            yield dict(k="fuzz", kind=kind, text=t, ctx=0)
        for w in ["0", "1 ", "-", ".", "e", "(", ")", "a", " ", ",", "1e", "\t ,", "#f", "rgb(", "0.0", "M", "z", "translate("]:
            yield dict(k="fuzz", kind=kind, text=dict(rep=["", w, 3000, ""]), ctx=0)
            yield dict(k="fuzz", kind=kind, text=dict(rep=[VALID[kind][0], w, 3000, "!"]), ctx=1)


def connected(mon, segs, key, text):
    prev = None
    z = None
    for i, s in enumerate(segs):
        k = type(s).__name__
        if prev is not None:
            a, b = s.start, prev.end
            mon.check((a is None and b is None) or (a is not None and b is not None and same(a, b)), key + ":connection",
                      lambda: "segment %d %r does not start where %r ends, text %r" % (i, s, prev, text))
        if k == "Move":
            z = s.end
        if k == "Close" and z is not None:
            mon.check(s.end is not None and same(s.end, z), key + ":close", lambda: "%r does not end at %r, text %r" % (s, z, text))
        prev = s


def same(a, b):
    for u, v in ((a.x, b.x), (a.y, b.y)):
        if u != v and not (u != u and v != v) and not abs(u - v) <= 1e-11 * max(1, abs(u), abs(v)):
            return False
    return True


def shot(segs):
    return [(type(s).__name__, R.xy(s.end) if s.end is not None else None, R.ctrl_of(s)) for s in segs]


def run(c, mon):
    if c["k"] == "prefix":
        return run_prefix(c, mon)
    if c["k"] == "edit":
        return run_edit(c, mon)
    return run_fuzz(c, mon)


def run_prefix(c, mon):
    from svgio.path import Path

    text = c["text"]
    prog, pos, status = lex(text)
    extreme = any(not (1e-6 <= abs(float(x)) <= 1e6) and float(x) != 0 for x in NUM.findall(text))
    p = Path()
    try:
        p.parse(text)
        mon.ev("accepted" if status == "ok" else "stopped_quietly")
        raised = False
    except ValueError:
        mon.ev("value_error")
        raised = True
    got = list(p)
    connected(mon, got, "prefix", text)
    if prog and prog[0][0] not in "Mm":
        return
    if status == "unclear" or extreme:
        mon.ev("unclear" if not extreme else "extreme_numbers")
        return
    if status == "ok":
        mon.check(not raised, "valid-refused", "ValueError for %r", text)
    want = R.interpret(prog)
    if status == "close" and len(got) == len(want) - 1:
        want = want[:-1]
    mon.check(len(got) == len(want), "prefix:count", lambda: "%d segments kept, %d precede the error in %r" % (len(got), len(want), text))
    R.match(mon, got, want, "prefix")
    if status != "ok":
        mon.nontrivial()
        mon.ev("prefix_segments_compared", len(got))
    mon.state(prog[-1][0] if prog else None, len(prog), text[pos:pos + 1])


def run_edit(c, mon):
    from svgio.path import Path

    p = Path(c["base"])
    n = len(p)
    before = shot(p)
    t = c["text"]
    op = c["op"]
    i = int(c["i"] * n)
    j = int(c["j"] * (n + 1))
    raised = False
    q = p
    try:
        if op == "parse":
            p.parse(t)
        elif op == "iadd":
            p += t
        elif op == "add":
            q = p + t
        elif op == "append":
            p.append(t)
        elif op == "extend":
            p.extend(t)
        elif op == "insert":
            p.insert(i, t)
        elif op == "set":
            p[i] = t
        elif op == "slice":
            p[i:j:c["st"]] = t
    except ValueError:
        raised = True
    mon.ev(op + (":raised" if raised else ":done"))
    key = "edit:" + op
    after = shot(p)
    connected(mon, list(p), key, t)
    if op == "add":
        mon.check(eq(after, before), key + ":operand", lambda: "%r + %r changed the path to %r" % (c["base"], t, after))
        if not raised:
            mon.check(eq(shot(q)[:n], before), key + ":kept", lambda: "%r + %r" % (c["base"], t))
            connected(mon, list(q), key, t)
    elif op in ("parse", "iadd", "append", "extend"):
        mon.check(eq(after[:n], before), key + ":kept", lambda: "%r given %r lost or changed segments: %r" % (c["base"], t, after))
    elif raised:
        mon.check(eq(after, before), key + ":kept", lambda: "%r refused %r but became %r" % (c["base"], t, after))
    elif op == "insert":
        m = len(after) - n
        rest = after[:i] + after[i + m:]
        mon.check(m >= 0 and eq_loose(rest, before), key + ":kept", lambda: "%r with %r at %d became %r" % (c["base"], t, i, after))
    elif op == "set":
        m = len(after) - n
        mon.check(m >= -1 and eq_loose(after[:i] + after[i + 1 + m:], before[:i] + before[i + 1:]), key + ":kept", lambda: "%r[%d]=%r became %r" % (c["base"], i, t, after))
    if raised or lex(t)[2] != "ok":
        mon.nontrivial()


def eq(a, b):
    return a == b


def eq_loose(a, b):
    """Kinds and drawn end points; closes follow their moves, so their ends may change."""
    if len(a) != len(b):
        return False
    return all(x[0] == y[0] and (x[0] == "Close" or x[1:] == y[1:]) for x, y in zip(a, b))


def run_fuzz(c, mon):
    text = c["text"]
    if isinstance(text, dict):
        a, b, n, e = text["rep"]
        text = a + b * n + e
        mon.ev("long_text")
    kind = c["kind"]
    if len(text) >= 3:
        mon.nontrivial()
    try:
        READ[kind](text, c["ctx"], mon)
        mon.ev(kind + ":value")
    except ValueError:
        mon.ev(kind + ":value_error")


def num(mon, v, key, text, none=False):
    mon.check(isinstance(v, (int, float)) and not isinstance(v, bool) or (none and v is None), key, lambda: "%r (%s) from %r" % (v, type(v).__name__, text[:200]))


def read_path(text, ctx, mon):
    from svgio.path import Path

    p = Path()
    try:
        p.parse(text)
    finally:
        segs = list(p)
        connected(mon, segs, "fuzz:path", text[:300])
        mon.check(len(segs) == len(p), "fuzz:path:len")
    for s in segs[:50]:
        mon.check(type(s).__name__ in ("Move", "Line", "QuadraticBezier", "CubicBezier", "Arc", "Close"), "fuzz:path:kind")
    if ctx == 1:
        q = Path(text)
        mon.check(len(q) == len(p), "fuzz:path:constructor", lambda: "Path(text) has %d segments, parse gave %d: %r" % (len(q), len(p), text[:300]))
    mon.check(isinstance(str(p), str), "fuzz:path:str")


def read_matrix(text, ctx, mon):
    from svgio import Length, Matrix

    kw = [{}, dict(ppi=96.0), dict(ppi=96.0, width=200, height=100)][ctx]
    m = Matrix(text, **kw)
    for a in "abcd":
        num(mon, getattr(m, a), "fuzz:matrix:" + a, text)
    for a in "ef":
        v = getattr(m, a)
        if isinstance(v, Length):
            num(mon, v.amount, "fuzz:matrix:" + a, text)
            mon.check(isinstance(v.units, str), "fuzz:matrix:units", lambda: "%r from %r" % (v, text[:200]))
        else:
            num(mon, v, "fuzz:matrix:" + a, text)
    mon.check(isinstance(str(m), str) and isinstance(repr(m), str), "fuzz:matrix:str")


def read_color(text, ctx, mon):
    from svgio import Color

    v = Color.parse(text)
    c = Color(text)
    mon.check(c.value == v, "fuzz:color:parse", lambda: "Color(%r) is %r, Color.parse gives %r" % (text[:200], c.value, v))
    if v is not None:
        mon.check(type(v) is int and 0 <= v <= 0xFFFFFFFF, "fuzz:color:value", lambda: "%r from %r" % (v, text[:200]))
        for a in ("red", "green", "blue", "alpha"):
            x = getattr(c, a)
            mon.check(type(x) is int and 0 <= x <= 255, "fuzz:color:" + a, lambda: "%r from %r" % (x, text[:200]))
    mon.check(isinstance(str(c), str) and isinstance(repr(c), str), "fuzz:color:str")


def read_length(text, ctx, mon):
    from svgio import Length

    v = Length(text)
    num(mon, v.amount, "fuzz:length:amount", text, none=True)
    mon.check(v.units is None or isinstance(v.units, str), "fuzz:length:units", lambda: "%r from %r" % (v.units, text[:200]))
    mon.check(isinstance(str(v), str) and isinstance(repr(v), str), "fuzz:length:str")
    x = v.value(ppi=96.0, relative_length=200.0, font_size=12.0, font_height=10.0, viewbox="0 0 10 20")
    mon.check(isinstance(x, (int, float, Length)) or (x is None and v.amount is None), "fuzz:length:value", lambda: "%r from %r" % (x, text[:200]))


def read_angle(text, ctx, mon):
    from svgio import Angle

    v = Angle.parse(text)
    mon.check(isinstance(v, Angle), "fuzz:angle", lambda: "%r from %r" % (v, text[:200]))
    num(mon, v.as_degrees, "fuzz:angle:degrees", text)


def read_viewbox(text, ctx, mon):
    from svgio import Viewbox

    v = Viewbox(text)
    for a in ("x", "y", "width", "height"):
        num(mon, getattr(v, a), "fuzz:viewbox:" + a, text, none=True)


def read_par(text, ctx, mon):
    from svgio import Matrix, Viewbox

    v = Viewbox("0 0 10 20", text)
    e = Viewbox("0 0 30 50", "none")
    t = v.transform(e)
    mon.check(t is None or isinstance(t, str), "fuzz:par:transform", lambda: "%r for %r" % (t, text[:200]))
    m = Matrix(t)
    for a in "abcdef":
        num(mon, getattr(m, a), "fuzz:par:" + a, text)


READ = dict(path=read_path, matrix=read_matrix, color=read_color, length=read_length, angle=read_angle, viewbox=read_viewbox, par=read_par)
