"""C20: colour channels, packings and conversions are mutually consistent."""
import colorsys
import math

from .. import gen

ID = "C20"
RULE = (
    "histories of up to 10 channel, packing, opacity, hue/saturation/lightness and blend operations (values in and out of range) on a "
    "colour made by any constructor form; after each step every view of the colour (channels, packings, hex texts, HSL, luminance, luma, brightness, "
    "blackness, intensity) is compared with a four-byte model, source-over with the Porter-Duff formula, distance with redmean; windows of distinct(i) are "
    "checked for repeats. Non-trivial: a history that changed the colour; distinct by case."
)
QUICK, THOROUGH = 210000, 5000000
MIN = 8000
ASSUMPTIONS = ["packed integers are in range; hsl results and blends are compared to within one level (hsl truncates, blend rounds)", "intensity is (r+g+b)/768 as the library defines it"]


def chan(r):
    return r.choice([r.randint(0, 255), r.randint(0, 255), 0, 255, -1, 256, 1000, -300, 128])


def unit(r):
    return r.choice([0, 1, 0.5, 0.25, round(r.random(), 3), r.random()])


def hue(r):
    return r.choice([60 * r.randint(-2, 8), r.randint(0, 360), r.uniform(0, 360), r.uniform(-400, 800)])


def any_colour(r):
    """(text of the constructor kind, arguments, keywords)"""
    k = r.random()
    rgba = [r.randint(0, 255) for _ in range(4)]
    if r.random() < 0.3:
        rgba = [r.choice([0, 255, 128, rgba[0]]) for _ in range(4)]
    if k < 0.3:
        return [["#%02x%02x%02x%02x" % tuple(rgba)], {}]
    if k < 0.4:
        return [[rgba[0] << 16 | rgba[1] << 8 | rgba[2]], {}]
    if k < 0.5:
        return [[chan(r), chan(r), chan(r)], {}]
    if k < 0.6:
        return [[chan(r), chan(r), chan(r), chan(r)], {}]
    if k < 0.7:
        return [[r.choice(["red", "#123456", "#%02x%02x%02x%02x" % tuple(rgba), rgba[0]]), unit(r)], {}]
    if k < 0.73:  # some channels named on top of a colour
        names = r.sample(["red", "green", "blue", r.choice(["alpha", "opacity"])], r.randint(1, 3)) if r.random() < 0.6 else r.sample(["r", "g", "b", "opacity"], r.randint(1, 3))
        return [["#%02x%02x%02x%02x" % tuple(rgba)], {n: unit(r) if n == "opacity" else chan(r) for n in names}]
    if k < 0.76:
        return [[], dict(zip(["red", "green", "blue", "alpha"], [chan(r) for _ in range(4)]))]
    if k < 0.82:
        return [[], dict(zip(["r", "g", "b", "opacity"], [chan(r) for _ in range(3)] + [unit(r)]))]
    if k < 0.88:
        return [[], {r.choice(["rgb"]): rgba[0] << 16 | rgba[1] << 8 | rgba[2]}]
    if k < 0.94:
        return [[], {r.choice(["rgba", "argb"]): rgba[0] << 24 | rgba[1] << 16 | rgba[2] << 8 | rgba[3]}]
    base = [["#%02x%02x%02x%02x" % tuple(rgba)]][0] if r.random() < 0.6 else []
    names = r.choice([["hue", "saturation", "lightness"], ["h", "s", "l"]])
    keep = [n for n in names if r.random() < 0.8] or names
    return [base, {n: hue(r) if n[0] == "h" else unit(r) for n in keep}]


def cases(r):
    while True:
        if r.random() < 0.02:
            yield dict(kind="distinct", at=max(0, r.choice([0, 0, r.randint(0, 2000), r.choice([1, 2, 3, 5, 17, 64, 100, 200, 254]) ** 3 - 3, r.randint(0, 250) ** 3 + r.randint(0, 30)])), n=r.choice([50, 400]))
            continue
        ops = []
        for _ in range(r.choice([1, 2, 3, 5, 10])):
            op = r.choice(["red", "green", "blue", "alpha", "opacity", "rgb", "rgba", "argb", "hsl", "hue", "saturation", "lightness", "blend", "blend", "over", "copy", "distance"])
            if op in ("red", "green", "blue", "alpha"):
                v = chan(r)
            elif op == "opacity":
                v = r.choice([unit(r), unit(r), 1.5, -0.5])
            elif op == "rgb":
                v = r.getrandbits(24)
            elif op in ("rgba", "argb"):
                v = r.getrandbits(32)
            elif op == "hsl":
                v = [hue(r), unit(r), unit(r)]
            elif op == "hue":
                v = hue(r)
            elif op in ("saturation", "lightness"):
                v = unit(r)
            else:
                v = [any_colour(r), r.choice(["color", "text", "int"]) if op != "blend" else "color", unit(r) if r.random() < 0.4 else None]
            ops.append([op, v])
        yield dict(kind="history", c=any_colour(r), ops=ops)


def crimp(v):
    return max(0, min(255, v))


def byte(op):
    """Nearest byte(s) of an opacity."""
    v = crimp(op * 255.0)
    return (math.floor(v), math.ceil(v)) if abs(v % 1 - 0.5) < 1e-9 else (round(v),) * 2


def check_hsl(col, h, s, l, mon, desc):
    w = [255 * x for x in colorsys.hls_to_rgb((h / 360.0) % 1.0, l, s)]
    got = (col.red, col.green, col.blue)
    mon.check(all(abs(a - b) <= 1.0 + 1e-6 for a, b in zip(got, w)), "hsl", lambda: "%s gave %r, expected %r" % (desc(), got, w))


def construct(spec, mon):
    from svgio.basic import Color

    args, kw = spec
    if len(args) == 2 and int(args[1] * 1000) % 3 == 0:
        col = Color(Color(args[0]), args[1])
    else:
        col = Color(*args, **kw)
    desc = lambda: "Color(*%r, **%r)" % (args, kw)
    got = [col.red, col.green, col.blue, col.alpha]
    want = [0, 0, 0, 0]
    if not args:
        pass
    elif isinstance(args[0], str):
        t = {"red": "ff0000ff", "#123456": "123456ff"}.get(args[0]) or args[0][1:]
        want = [int(t[i : i + 2], 16) for i in (0, 2, 4, 6)]
    elif len(args) < 3:
        want = [args[0] >> 16 & 255, args[0] >> 8 & 255, args[0] & 255, 255]
    else:
        want = [crimp(v) for v in args] + ([255] if len(args) == 3 else [])
    if len(args) == 2:
        want[3] = None
        mon.check(got[3] in byte(args[1]), "construct-opacity", lambda: "%s gave %r" % (desc(), got))
    hsl = {n[0]: v for n, v in kw.items() if n[0] in "hsl"}
    for n, v in kw.items():
        if n in ("red", "green", "blue", "alpha", "r", "g"):
            want["rgba".index(n[0])] = crimp(v)
        elif n in ("b", "blue"):
            want[2] = crimp(v)
        elif n == "opacity":
            want[3] = None
            mon.check(got[3] in byte(v), "construct-opacity", lambda: "%s gave %r" % (desc(), got))
        elif n == "rgb":
            want = [v >> 16 & 255, v >> 8 & 255, v & 255, 255]
        elif n == "rgba":
            want = [v >> 24 & 255, v >> 16 & 255, v >> 8 & 255, v & 255]
        elif n == "argb":
            want = [v >> 16 & 255, v >> 8 & 255, v & 255, v >> 24 & 255]
    if hsl:
        h, l, s = colorsys.rgb_to_hls(*[x / 255 for x in want[:3]])
        check_hsl(col, hsl.get("h", h * 360), hsl.get("s", s), hsl.get("l", l), mon, desc)
        mon.check(got[3] == want[3], "construct-hsl-alpha", lambda: "%s gave %r" % (desc(), got))
    else:
        mon.check(all(w is None or g == w for g, w in zip(got, want)), "construct", lambda: "%s gave %r, expected %r" % (desc(), got, want))
    mon.feat("construct:%d%s" % (len(args), "".join(sorted(n[0] for n in kw))))
    return col, got


def observe(col, m, mon, desc):
    r, g, b, a = m
    views = [
        ("channels", [col.red, col.green, col.blue, col.alpha], [r, g, b, a]),
        ("rgb", col.rgb, r << 16 | g << 8 | b),
        ("rgba", col.rgba, r << 24 | g << 16 | b << 8 | a),
        ("int", int(col), r << 24 | g << 16 | b << 8 | a),
        ("argb", col.argb, a << 24 | r << 16 | g << 8 | b),
        ("hexa", col.hexa.lower(), "#%02x%02x%02x%02x" % (r, g, b, a)),
        ("hex", col.hex.lower(), "#%02x%02x%02x" % (r, g, b) + ("" if a == 255 else "%02x" % a)),
    ]
    for name, got, want in views:
        mon.check(got == want, name, lambda: "%s is %r, expected %r; %s" % (name, got, want, desc()))
    h, l, s = colorsys.rgb_to_hls(r / 255, g / 255, b / 255)
    close = [
        ("opacity", col.opacity, a / 255), ("saturation", col.saturation, s), ("lightness", col.lightness, l),
        ("luminance", col.luminance, (0.3 * r + 0.59 * g + 0.11 * b) / 255), ("luma", col.luma, (0.2126 * r + 0.7152 * g + 0.0722 * b) / 255),
        ("brightness", col.brightness, max(r, g, b) / 255), ("blackness", col.blackness, 1 - max(r, g, b) / 255), ("intensity", col.intensity, (r + g + b) / 768),
    ]
    for name, got, want in close:
        mon.check(-1e-12 <= got <= 1 + 1e-12 and abs(got - want) <= 1e-12, name, lambda: "%s is %r, expected %r; %s" % (name, got, want, desc()))
    d = abs(float(col.hue) - h * 360) % 360
    mon.check(0 <= float(col.hue) <= 360 + 1e-9 and min(d, 360 - d) <= 1e-9, "hue", lambda: "hue is %r, expected %r; %s" % (col.hue, h * 360, desc()))
    mon.check(tuple(col.hsl) == (col.hue, col.saturation, col.lightness), "hsl-tuple", desc)
    o = abs(col)
    mon.check((o.red, o.green, o.blue, o.alpha) == (r, g, b, 255), "abs", desc)
    mon.check(col.rgba == r << 24 | g << 16 | b << 8 | a, "observation-mutates", desc)
    mon.ev("views", 17)


def over(x, y):
    """x over y, floats."""
    a1, a2 = x[3] / 255, y[3] / 255
    a = a1 + a2 * (1 - a1)
    if a == 0:
        return [None, None, None, 0]
    return [(p * a1 + q * a2 * (1 - a1)) / a for p, q in zip(x[:3], y[:3])] + [a * 255]


def redmean(x, y):
    m = (x[0] + y[0]) / 2
    r, g, b = [p - q for p, q in zip(x[:3], y[:3])]
    return (2 + m / 256) * r * r + 4 * g * g + (2 + (255 - m) / 256) * b * b


def run(c, mon):
    from svgio.basic import Color

    if c["kind"] == "distinct":
        seen = {}
        for i in range(c["at"], c["at"] + c["n"]):
            col = Color.distinct(i)
            mon.check(col.alpha == 255, "distinct-opaque", lambda: "distinct(%d) is %r" % (i, col))
            mon.check(col.rgb not in seen, "distinct-repeats", lambda: "distinct(%d) and distinct(%d) are both %r" % (seen[col.rgb], i, col))
            seen[col.rgb] = i
        again = Color.distinct(c["at"] + c["n"] // 2)
        mon.check(seen.get(again.rgb) == c["at"] + c["n"] // 2, "distinct-deterministic")
        mon.ev("distinct", c["n"])
        mon.nontrivial()
        return
    col, m = construct(c["c"], mon)
    observe(col, m, mon, lambda: "constructed %r" % (c["c"],))
    first = list(m)
    for op, v in c["ops"]:
        before = list(m)
        desc = lambda: "%r on %r" % ([op, v], before)
        mon.feat("op:" + op)
        if op in ("red", "green", "blue", "alpha"):
            setattr(col, op, v)
            m["rgba".index({"alpha": "a"}.get(op, op[0]))] = crimp(v)
        elif op == "opacity":
            col.opacity = v
            mon.check(col.alpha in byte(v), "opacity-set", lambda: "%s gave %r" % (desc(), col.alpha))
            m[3] = col.alpha
        elif op == "rgb":
            col.rgb = v
            m = [v >> 16 & 255, v >> 8 & 255, v & 255, 255]
        elif op == "rgba":
            col.rgba = v
            m = [v >> 24 & 255, v >> 16 & 255, v >> 8 & 255, v & 255]
        elif op == "argb":
            col.argb = v
            m = [v >> 16 & 255, v >> 8 & 255, v & 255, v >> 24 & 255]
        elif op in ("hsl", "hue", "saturation", "lightness"):
            h, l, s = colorsys.rgb_to_hls(*[x / 255 for x in m[:3]])
            if op == "hsl":
                col.hsl = tuple(v) if len(c["ops"]) % 2 else list(v)
                h, s, l = v[0], v[1], v[2]
            else:
                setattr(col, op, v)
                h, s, l = (v, s, l) if op == "hue" else (h, v, l) if op == "saturation" else (h, s, v)
                h = h if op == "hue" else h * 360
            check_hsl(col, h, s, l, mon, desc)
            m = [col.red, col.green, col.blue, m[3]]
        elif op == "copy":
            o = Color(col)
            mon.check(o is not col and o == col, "copy", desc)
            o.red = (m[0] + 100) % 256
            o.alpha = (m[3] + 100) % 256
        else:
            o, om = construct(v[0], mon)
            t = o if v[1] == "color" else o.hexa if v[1] == "text" else o.rgb
            if v[1] == "int":
                om = om[:3] + [255]
            if op == "distance":
                w = redmean(om, m)
                for got in (Color.distance_sq(col, t), Color.distance_sq(t, col)):
                    mon.check(abs(got - w) <= 2 + 1e-2 * (abs(om[0] - m[0]) ** 2 + abs(om[2] - m[2]) ** 2), "distance-sq", lambda: "%s gave %r, expected %r" % (desc(), got, w))
                    mon.check(got == Color.distance_sq(col, t) and (got > 0) == (om[:3] != m[:3]), "distance-zero", lambda: "%s gave %r" % (desc(), got))
                mon.check(abs(Color.distance(col, t) - math.sqrt(Color.distance_sq(t, col))) <= 1e-9, "distance", desc)
                mon.check(abs(col.distance_to(t) - Color.distance(col, t)) <= 1e-9, "distance-to", desc)
                mon.check(Color.distance_sq(col, col) == 0, "distance-self", desc)
            elif op == "over":
                w = over(om, m)
                value = Color.over(t, col.hexa if om[0] % 3 == 0 else col)
                if om[1] % 4 == 0:
                    value = Color.over(o, col.rgb if m[3] == 255 else col)
                    if v[1] == "int":
                        w = over([o.red, o.green, o.blue, o.alpha], m)
                got = [value >> s & 255 for s in (24, 16, 8, 0)]
                mon.check(0 <= value < 1 << 32 and all(x is None or abs(x - y) <= 1.0 + 1e-6 for x, y in zip(w, got)), "over", lambda: "%s gave %r, expected %r" % (desc(), got, w))
            else:
                tops = [om]
                if v[2] is not None:
                    col.blend(t, v[2])
                    tops = [om[:3] + [b] for b in byte(v[2])]  # half way between two bytes either will do
                    om = tops[0]
                else:
                    col.blend(t)
                ws = [over(x, m) for x in tops]
                w = ws[0]
                got = [col.red, col.green, col.blue, col.alpha]
                mon.check(any(all(x is None or abs(x - y) <= 1.0 + 1e-6 for x, y in zip(u, got)) for u in ws), "blend", lambda: "%s gave %r, expected %r" % (desc(), got, w))
                m = got
            mon.check([o.red, o.green, o.blue] == om[:3] and (v[2] is not None or v[1] == "int" or o.alpha == om[3]), "other-operand", desc)
            mon.ev(op)
        observe(col, m, mon, desc)
        mon.state(m)
    if m != first:
        mon.nontrivial()
    # packing channels without making a colour
    r, g, b, a = m
    mon.check(Color.rgb_to_int(r, g, b) == r << 24 | g << 16 | b << 8 | 255, "rgb_to_int", lambda: repr(m))
    mon.check(Color.rgb_to_int(r, g, b, a / 255) == r << 24 | g << 16 | b << 8 | a, "rgb_to_int", lambda: repr(m))
    h, l, s = colorsys.rgb_to_hls(r / 255, g / 255, b / 255)
    for value, w in ((Color.hsl_to_int(h, s, l), 255), (Color.hsl_to_int(h, s, l, a / 255), a)):
        got = [value >> k & 255 for k in (24, 16, 8, 0)]
        mon.check(0 <= value < 1 << 32 and got[3] == w and all(abs(x - y) <= 1 for x, y in zip(got, m[:3])), "hsl_to_int", lambda: "%r from %r" % (got, m))
    n = Color("none")
    for a in ("red", "green", "blue", "alpha", "opacity", "hex", "hexa", "rgb", "rgba", "argb", "hue", "saturation", "lightness", "hsl", "luma", "luminance", "brightness", "blackness", "intensity"):
        mon.check(getattr(n, a) is None, "none-view", a)
    for a in ("red", "green", "blue", "alpha", "opacity", "hue", "saturation", "lightness"):
        try:
            setattr(n, a, 1)
        except ValueError:
            continue
        mon.fail("none-set", a)
