"""Workload generators (numbers, path programs and their spellings, transforms, ...). All output is JSON-able."""
import ast
import math
import os

from . import core

_const = None


def constants():
    """Numbers and strings that occur in the source under test, a fuzzing dictionary against special cases."""
    global _const
    if _const is None:
        nums, strs = set(), set()
        base = os.path.join(core.REPO, "svgio")
        for f in sorted(os.listdir(base)):
            if not f.endswith(".py"):
                continue
            with open(os.path.join(base, f), "rb") as fh:
                try:
                    tree = ast.parse(fh.read())
                except SyntaxError:
                    continue
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant):
                    v = node.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, (int, float)) and math.isfinite(v) and 1e-6 < abs(v) < 1e6:
                        nums.add(v)
                    elif isinstance(v, str) and len(v) <= 24:
                        strs.add(v)
        _const = (sorted(nums), sorted(strs))
    return _const


def number(r, mode="mixed"):
    """One coordinate-like number."""
    if mode == "grid":
        return r.randint(-4, 4)
    if mode == "int":
        return r.randint(-100, 100)
    k = r.random()
    if k < 0.06:
        return 0
    if k < 0.25:
        return r.randint(-10, 10)
    if k < 0.40:
        return r.randint(-400, 400) / 4
    if k < 0.65:
        return round(r.uniform(-100, 100), r.randint(0, 6))
    if k < 0.80:
        return r.uniform(-1000, 1000)
    if k < 0.88:
        v = r.choice(constants()[0])
        return r.choice([v, -v, v + 1, v - 1, v * 2, v / 2])
    if k < 0.94 or mode == "tame":
        return round(r.uniform(-1, 1), r.randint(1, 8))
    if k < 0.97:
        return r.uniform(-1, 1) * 10 ** r.randint(3, 6)
    return r.uniform(-1, 1) * 10 ** r.randint(-5, -2)


def positive(r, mode="mixed"):
    while True:
        v = abs(number(r, mode))
        if v > 1e-4:
            return v


def point(r, mode="mixed"):
    return [number(r, mode), number(r, mode)]


def pick_mode(r):
    return r.choices(["grid", "int", "mixed", "tame"], [3, 2, 5, 2])[0]


# -- path programs: lists of [letter, [args], ...] with letter case as in path data -----------------------------

ARGS = dict(M=2, L=2, H=1, V=1, C=6, S=4, Q=4, T=2, A=7, Z=0)


def arc_args(r, mode, low=False):
    k = r.random()
    rx, ry = positive(r, mode), positive(r, mode)
    if k < 0.25:
        ry = rx
    elif k < 0.32:
        rx = -rx
    elif k < 0.36:
        rx = 0
    elif k < 0.40:
        ry = 0
    elif k < 0.44:
        ry = -ry
        if r.random() < 0.3:
            rx = -rx
    rot = r.choice([0, 0, 30, 45, 90, 180, -90, 270, 360, 400, number(r, "tame"), number(r, "mixed")])
    end = point(r, mode)
    while 0 < max(abs(end[0]), abs(end[1])) < 1e-3 * max(abs(rx), abs(ry)):
        end = point(r, "int")  # a relative chord tiny against the radii is ill conditioned
        if abs(rx) > 1e4 or abs(ry) > 1e4:
            rx, ry = (positive(r, "int"), positive(r, "int"))
    x = r.random()
    if low and x < 0.12 and rx and ry and end != [0, 0]:
        # a little more than half of the chord: almost a half turn
        rx = ry = math.hypot(*end) / 2 * (1 + 10 ** -r.uniform(0.3, 4))
    elif low and x < 0.2:
        # the same arc in small
        f = 10.0 ** -r.randint(1, 4)
        rx, ry, end = rx * f, ry * f, [v * f for v in end]
    return [rx, ry, rot, r.randint(0, 1), r.randint(0, 1)] + end


def program(r, n=None, mode=None, letters=None, arcs=True, rel=None, repeat=True, close_rate=0.1):
    """A grammatical path program: starts with a move; letters may carry several argument groups."""
    mode = mode or pick_mode(r)
    if n is None:
        n = r.choice([1, 2, 3, 4, 5, 6, 8, 12, 20]) if r.random() < 0.985 else r.choice([35, 60, 90, 90, 260])
    elif n > 1 and repeat and r.random() < 0.003:
        n = r.choice([30, 60, 110])
    if n > 2 and repeat and r.random() < 0.01:
        n = r.choice([18, 30, 45, 70])
    rel = rel if rel is not None else r.choice([0, 0.5, 0.5, 1])
    letters = letters or r.choice(["LHVCSQTAZM", "LHVCSQTAZM", "LCQAZM", "LHVZM", "QTM", "CSM", "QTCSLZM", "AAZML", "LZM"])
    if not arcs:
        letters = letters.replace("A", "") or "L"
    out = []

    def emit(c, groups=None):
        if groups is None:
            groups = 1 if not repeat or r.random() < 0.75 else r.randint(2, 4) if r.random() < 0.97 else r.randint(5, 14)
        low = r.random() < rel
        a = []
        for _ in range(groups if ARGS[c] else 1):
            if c == "A":
                a.append(arc_args(r, mode, low))
            elif ARGS[c]:
                a.append([number(r, mode) for _ in range(ARGS[c])])
        out.append([c.lower() if low else c] + a)

    emit("M")
    while len(out) < n:
        if r.random() < close_rate and len(out) > 1:
            emit("Z")
            k = r.random()
            if k < 0.7:
                emit("M", 1 if r.random() < 0.7 else None)
            continue
        c = r.choice(letters)
        if r.random() < 0.06 and c in "LTQCSA":
            # segment-completing close
            low = r.random() < rel
            g = [number(r, mode) for _ in range(ARGS[c] - 2)] if c != "A" else arc_args(r, mode)[:5]
            out.append([c.lower() if low else c, g + ["z"]])
            out.append(["z" if r.random() < 0.5 else "Z"])
            continue
        if c == "Z" and r.random() < 0.5:
            continue
        emit(c)
    return out


def absolute_program(r, **kw):
    return program(r, rel=0, **kw)


def spell_number(r, v, fancy):
    """One legal spelling of a number (value preserved exactly)."""
    if v == 0 and r.random() < 0.5 * fancy:
        return r.choice(["0", "0.0", "-0", "+0", ".0", "0e5", "00"])
    s = repr(v)
    if "e" in s or "E" in s:
        if "." not in s and r.random() < 0.5:
            return s.replace("e", "E")
        return s
    if s.endswith(".0"):
        s = s[:-2]
    if r.random() < 0.25 * fancy:
        if s.startswith("0."):
            s = s[1:]
        elif s.startswith("-0."):
            s = "-" + s[2:]
    if r.random() < 0.1 * fancy and not s.startswith("-"):
        s = "+" + s
    if r.random() < 0.1 * fancy and "." in s:
        s += "0"
    if r.random() < 0.08 * fancy:
        s += r.choice(["e0", "E0", "e+0", "e-0", "E+00"])
    if r.random() < 0.04 * fancy and s[0].isdigit():
        s = "0" + s
    return s


WS = [" ", " ", " ", "\t", "\n", "\r", "  ", "\r\n", "\x0c"]


def spell(r, prog, fancy=1.0, implicit=0.5):
    """Path data text for a program, in a randomly chosen legal spelling."""
    out = []
    last = None

    def sep(prev, nxt):
        """A separator legal between two number tokens."""
        need = True
        if nxt[0] in "+-":
            need = False
        elif nxt[0] == "." and ("." in prev or "e" in prev or "E" in prev):
            need = False
        k = r.random()
        if not need and k < 0.4 * fancy:
            return ""
        if k < 0.5:
            return r.choice([",", " "])
        if r.random() < fancy * 0.5:
            return r.choice(WS) + r.choice(["", ","]) + r.choice(["", r.choice(WS)])
        return " "

    for item in prog:
        letter, groups = item[0], item[1:]
        # implicit repetition: same letter again, or line after move of the same case
        imp = (
            groups
            and last is not None
            and (letter == last or (letter == "L" and last == "M") or (letter == "l" and last == "m"))
            and letter not in "Mm"
            and r.random() < implicit
            and prev_group_ok
            and not any(g == ["z"] for g in groups)
        )
        toks = []
        for g in groups:
            for i, v in enumerate(g):
                if v == "z":
                    continue  # the close letter itself follows as the next command
                if letter in "Aa" and i in (3, 4):
                    toks.append(("flag", str(int(v))))
                else:
                    toks.append(("num", spell_number(r, v, fancy)))
        text = ""
        prev = None
        for kind, t in toks:
            if prev is None:
                text += r.choice(["", " ", r.choice(WS)]) if r.random() < fancy else ""
                text += t
            elif prev[0] == "flag":
                text += r.choice(["", "", " ", ",", " , "]) if r.random() < fancy else " "
                text += t
            elif kind == "flag":
                text += r.choice([" ", ",", " ,"]) + t
            else:
                text += sep(prev[1], t) + t
            prev = (kind, t)
        if imp:
            out.append(r.choice([" ", ",", "\n"]) + text.lstrip(" \t\r\n\x0c"))
        else:
            lead = r.choice(["", "", " ", r.choice(WS)]) if r.random() < fancy else " "
            out.append((lead if out else r.choice(["", "", " ", "\n"])) + letter + text)
        prev_group_ok = not any("z" in g for g in groups)
        last = letter if groups else None
    tail = r.choice(["", "", " ", "\n"]) if fancy else ""
    return "".join(out) + tail


def plain(prog):
    """The program as plain text, no fancy spelling, no implicit repetition across items."""
    out = []
    for item in prog:
        out.append(item[0] + " " + " ".join(repr(v) for g in item[1:] for v in g if v != "z"))
    return " ".join(out)


# -- affine matrices -------------------------------------------------------------------------------------------


def matrix(r, kind=None):
    """Six components of a well conditioned affine matrix."""
    kind = kind or r.choice(
        ["rotate", "scale", "uniform", "translate", "skew", "reflect", "swap", "general", "general", "similarity", "identity"]
    )
    a = r.choice([r.uniform(-math.pi, math.pi), math.radians(r.choice([30, 45, 60, 90, 180, 270, -90]))])
    t = [0, 0] if r.random() < 0.3 else [number(r, "tame"), number(r, "tame")]

    def s():
        return r.choice([0.5, 2, 3, 0.1, 10, r.uniform(0.05, 20)]) * r.choice([1, 1, 1, -1])

    if kind == "identity":
        return [1, 0, 0, 1, 0, 0]
    if kind == "translate":
        return [1, 0, 0, 1] + [number(r, "mixed"), number(r, "mixed")]
    if kind == "rotate":
        return [math.cos(a), math.sin(a), -math.sin(a), math.cos(a)] + t
    if kind == "scale":
        return [s(), 0, 0, s()] + t
    if kind == "uniform":
        k = s()
        return [k, 0, 0, k] + t
    if kind == "similarity":
        k = s()
        f = r.choice([1, -1])
        return [k * math.cos(a), k * math.sin(a), -f * k * math.sin(a), f * k * math.cos(a)] + t
    if kind == "skew":
        x = r.uniform(-2, 2)
        y = 0 if r.random() < 0.6 else r.uniform(-0.4, 0.4)
        return [1, y, x, 1] + t
    if kind == "reflect":
        return r.choice([[-1, 0, 0, 1], [1, 0, 0, -1], [math.cos(2 * a), math.sin(2 * a), math.sin(2 * a), -math.cos(2 * a)]]) + t
    if kind == "swap":
        return r.choice([[0, 1, 1, 0], [0, -1, 1, 0], [0, 1, -1, 0], [0, 2, 3, 0], [0, -2, -0.5, 0]]) + t
    while True:
        m = [r.uniform(-3, 3) for _ in range(4)]
        n2 = sum(x * x for x in m)
        d = m[0] * m[3] - m[1] * m[2]
        if abs(d) > 0.02 * n2:
            return m + t


def matrix_ok(m, limit=1e3):
    """Condition number of the linear part is moderate."""
    n2 = sum(x * x for x in m[:4])
    d = abs(m[0] * m[3] - m[1] * m[2])
    return d > 0 and n2 / d < limit
