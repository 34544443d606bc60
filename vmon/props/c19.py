"""C19: every CSS colour notation denotes its defined colour."""
import colorsys

from .. import gen
from ..css_colors import KEYWORDS

ID = "C19"
RULE = (
    "all 147 keywords, transparent and none in random letter case and surrounding space; hexadecimal of 3, 4, 6 and 8 digits with and "
    "without case changes; rgb/rgba with numbers or percentages and hsl/hsla, components in, at and beyond their range, alpha present or not, random "
    "number spelling, letter case and spacing; channels are compared with an independent table and formulas, and equality between "
    "random pairs of notations with equality of the channels. Non-trivial: any notation but none; distinct by text."
)
QUICK, THOROUGH = 480000, 6000000
MIN = 15000
ASSUMPTIONS = ["a channel may be rounded to either neighbour at a half; hsl results to within one level"]
NAMES = sorted(KEYWORDS)


def casing(r, t):
    k = r.random()
    return t if k < 0.5 else t.upper() if k < 0.65 else t.capitalize() if k < 0.8 else "".join(r.choice([ch.upper(), ch.lower()]) for ch in t)


def value(r, top):
    k = r.random()
    if k < 0.5:
        return r.randint(0, top)
    if k < 0.65:
        return r.choice([0, top, top + 1, top - 1, -1, top * 2, -top, 1, top // 2])
    if k < 0.8:
        return r.randint(-2 * top, 3 * top)
    return round(r.uniform(-0.2, 1.2) * top, r.randint(1, 5))


def alpha(r):
    return r.choice([0, 1, 0.5, 2, -1, 0.25, 1.5, round(r.uniform(0, 1), r.randint(1, 4)), r.randint(0, 255) / 255])


def notation(r):
    """[kind, text, parameters]"""
    k = r.choice(["keyword", "keyword", "hex3", "hex4", "hex6", "hex8", "rgb", "rgb%", "hsl"])
    if k == "keyword":
        n = r.choice(NAMES + ["transparent", "none"])
        return [k, casing(r, n), n]
    if k.startswith("hex"):
        t = "".join(r.choice("0123456789abcdef") if r.random() < 0.8 else r.choice("0f") for _ in range(int(k[3])))
        return [k, "#" + casing(r, t), t]
    al = alpha(r) if r.random() < 0.5 else None
    fancy = r.choice([0, 1])
    sp = lambda v: gen.spell_number(r, v, fancy)
    ws = lambda: r.choice(["", "", " ", "  ", "\t", "\n"]) if fancy else ""
    if k == "hsl":
        ps = [r.choice([r.randint(0, 360), r.randint(-720, 1080), round(r.uniform(-400, 800), 3), 60 * r.randint(-6, 12)]), value(r, 100), value(r, 100)]
        toks = [sp(ps[0]), sp(ps[1]) + "%", sp(ps[2]) + "%"]
    elif k == "rgb":
        ps = [value(r, 255) for _ in range(3)]
        toks = [sp(p) for p in ps]
    else:
        ps = [value(r, 100) for _ in range(3)]
        toks = [sp(p) + "%" for p in ps]
    word = "hsl" if k == "hsl" else "rgb"
    if al is not None:
        toks.append(sp(al))
        word += "a" if r.random() < 0.9 else ""
    t = casing(r, word) + "(" + ws() + (ws() + "," + (ws() if fancy else " ")).join(toks) + ws() + ")"
    return [k, t, ps + [al]]


def cases(r):
    while True:
        n = notation(r)
        if r.random() < 0.15:
            n[1] = r.choice(["", " ", "\n"]) + n[1] + r.choice(["", " ", "\t"])
        o = notation(r)
        if r.random() < 0.3:
            o = respell(r, n)
        yield dict(n=n, o=o)


def respell(r, n):
    """Another notation of (nearly always) the same colour."""
    w = reference(n)
    if w is None:
        return ["keyword", "none", "none"]
    c = [int(round(x[0])) for x in w[:4]]
    if any(abs(x[0] - round(x[0])) > 1e-9 or x[1] > 1e-6 for x in w):
        return notation(r)
    if r.random() < 0.3:
        c[r.randrange(4)] ^= r.choice([1, 128])  # a near miss
    if c[3] == 255 and r.random() < 0.5:
        return ["rgb", "rgb(%d, %d, %d)" % tuple(c[:3]), c[:3] + [None]]
    t = "%02x%02x%02x%02x" % tuple(c)
    return ["hex8", "#" + t, t]


def clamp(v, top):
    return min(max(v, 0.0), top)


def reference(n):
    """Four (value, tolerance) pairs or None."""
    k, _, p = n
    if k == "keyword":
        if p == "none":
            return None
        if p == "transparent":
            return [(0, 0)] * 4
        return [(v, 0) for v in KEYWORDS[p]] + [(255, 0)]
    if k.startswith("hex"):
        w = int(k[3])
        d = [int(p[i : i + 1] * 2, 16) for i in range(w)] if w < 5 else [int(p[i : i + 2], 16) for i in range(0, w, 2)]
        return [(v, 0) for v in (d + [255])[:4]]
    a = 1.0 if p[3] is None else clamp(p[3], 1.0)
    al = (a * 255.0, 0.5 + 1e-9 if a * 255 % 1 else 0)
    if k == "hsl":
        c = colorsys.hls_to_rgb((p[0] / 360.0) % 1.0, clamp(p[2], 100.0) / 100, clamp(p[1], 100.0) / 100)
        return [(255 * v, 1.0 + 1e-6) for v in c] + [al]
    if k == "rgb":
        v = [clamp(x, 255.0) for x in p[:3]]
    else:
        v = [clamp(x, 100.0) * 255 / 100 for x in p[:3]]
    return [(x, 0.5 + 1e-9 if x % 1 else 0) for x in v] + [al]


def run(c, mon):
    from svgio.basic import Color

    got = []
    for n in (c["n"], c["o"]):
        col = Color(n[1])
        w = reference(n)
        mon.feat("kind:" + n[0], *(["key:" + n[2]] if n[0] == "keyword" else []))
        if w is None:
            mon.check(col.value is None and col.red is None and col.green is None and col.blue is None and col.alpha is None, "none", lambda: "%r is %r" % (n[1], col))
            got.append((col, None))
            continue
        ch = [col.red, col.green, col.blue, col.alpha]
        mon.check(all(isinstance(x, int) and abs(x - v) <= t for x, (v, t) in zip(ch, w)), "channels:" + n[0], lambda: "%r has channels %r, expected %r" % (n[1], ch, [v for v, _ in w]))
        mon.ev("colour")
        mon.nontrivial(n[1])
        got.append((col, tuple(ch)))
        mon.state(ch)
    (x, cx), (y, cy) = got
    eq = cx == cy
    desc = lambda: "%r %r and %r %r" % (c["n"][1], cx, c["o"][1], cy)
    for r in (x == y, y == x, x == c["o"][1], y == c["n"][1], not (x != y), not (x != c["o"][1])):
        mon.check(bool(r) == eq, "equality", desc)
    mon.check(x == x and x == c["n"][1] and x == Color(x) and not (x != x), "equality-self", desc)
    if cx is not None:
        v = cx[0] << 24 | cx[1] << 16 | cx[2] << 8 | cx[3]
        mon.check(x == v and not (x == (v ^ 0x100)) and not (x == None) and x != None, "equality-int", desc)  # noqa: E711
    mon.ev("equal" if eq else "unequal")


def corpus():
    for n in NAMES + ["transparent", "none"]:
        yield dict(n=["keyword", n, n], o=["keyword", n.upper(), n])
