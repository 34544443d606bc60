"""C34: the font shorthand of text elements."""
import random

from .. import gen, units

ID = "C34"
RULE = (
    "font shorthands made of up to four style, variant, weight and stretch keywords in any order (each also 'normal'), a size in every unit the library has and every number "
    "spelling CSS allows, an optional line height (number, length, percentage or normal), up to four family names (words, several words, quoted with commas or generic names "
    "inside) and a generic family, in any white space and with or without a final semicolon, given one after the other to the same text or tspan element, loaded or built; weight, size, names and generic "
    "family are compared with the parts the text was made of. Texts without a size or with unknown words before it, up to thousands of characters of repeated parts, must "
    "change nothing and end. Non-trivial: a shorthand was understood; distinct by text."
)
QUICK, THOROUGH = 300000, 3000000
MIN = 8000
ASSUMPTIONS = ["keywords are in lower case and the last family is a generic one, as the code matches them", "sizes given as keywords are not claimed"]
STYLES = ["italic", "oblique", "normal"]
WEIGHTS = ["bold", "bolder", "lighter", "normal"] + [str(n) for n in range(100, 1000, 100)] + ["450", "001", "999"]
STRETCH = ["ultra-condensed", "extra-condensed", "condensed", "semi-condensed", "semi-expanded", "expanded", "extra-expanded", "ultra-expanded", "normal"]
GENERIC = ["serif", "sans-serif", "cursive", "fantasy", "monospace"]
NAMES = ["Arial", "Times New Roman", "'Times New Roman'", '"A, B"', "'my serif'", "Droid Sans", "DejaVu", "serifa", "x-serif", "Fantasy", "a", "12px", "bold", "normal", "'serif, cursive'", "Größe", "M+ 1p", "sans-serif", "serif", "Noto Serif"]
UNITS = ["px", "px", "px", "pt", "pc", "em", "ex", "in", "cm", "mm", "vw", "vh", "vmin", "vmax", "%"]
SPACE = [" ", " ", " ", "  ", "\t", "\n", " \n "]


def amount(r):
    k = r.random()
    if k < 0.4:
        return str(r.choice([0, 1, 2, 9, 10, 12, 16, 72, 100, r.randint(0, 2000)]))
    if k < 0.8:
        return r.choice(["%.1f", "%.2f", "%.5f"]) % r.uniform(0, 100)
    return r.choice([".5", ".25", "0.1", "00.5", "012", "1.50", ".0625", "1000000", "0.000001"])


def shorthand(r):
    words = []
    weight = None
    for kind in r.sample(["style", "variant", "weight", "stretch"], r.choice([0, 0, 1, 1, 2, 3, 4])):
        w = r.choice({"style": STYLES, "variant": ["small-caps", "normal"], "weight": WEIGHTS, "stretch": STRETCH}[kind])
        if kind == "weight" and w != "normal":
            weight = {"bold": 700, "bolder": 400, "lighter": 400}.get(w) or int(w)
        words.append(w)
    n, unit = amount(r), r.choice(UNITS)
    size = n + unit
    if r.random() < 0.35:
        line = r.choice(["normal", amount(r), amount(r) + r.choice(UNITS)])
        size += r.choice(["/", "/", " / ", "/ ", " /"]) + line
    names = [r.choice(NAMES) for _ in range(r.choice([0, 0, 1, 1, 2, 4]))]
    generic = r.choice(GENERIC)
    parts = words + [size]
    text = r.choice(["", "", "", " ", "\n "])
    for p in parts:
        text += p + r.choice(SPACE)
    face = ""
    for i, f in enumerate(names):
        face += (r.choice([",", ", ", ", ", " , ", ",\n"]) if i else "") + f
    text += face + (r.choice([",", ", ", ", ", " , ", ",\n"]) if face else "") + generic
    text += r.choice(["", "", "", ";", " ", " ;", "; "])
    return dict(t=text, w=weight, n=n, u=unit, f=face, g=generic)


def other(r):
    """Something that is not a shorthand."""
    k = r.random()
    many = r.choice([1, 2, 5, 20, 60, 400])
    if k < 0.25:
        t = r.choice(["", "caption", "inherit", "serif", "12", "px", "12 px serif", "bold serif", "Arial, serif", "-", "/", "12qq serif", "italic", "bold bold", ";", "\n", "url(#x)", "#fff"])
    elif k < 0.5:
        t = (r.choice(["normal", "bold", "italic", "small-caps", "condensed", "400", "normal bold"]) + r.choice([" ", "  ", "\n"])) * many + r.choice(["", "x", "Arial, serif", "serif", "size 12px serif"])
    elif k < 0.75:
        t = shorthand(r)["t"].strip()
        t = r.choice(["unknown ", "12 ", "bold-ish ", "Bold", "#", "x/", "- ", "1 2 "]) + t
    else:
        t = r.choice(["12", "1", ".", " ", "/", ",", "a, ", "serif ", "1/", "px ", "% "]) * many + r.choice(["", "x", "!", "serif"])
    return dict(t=t)


def cases(r):
    while True:
        ts = []
        for _ in range(r.choice([1, 1, 2, 4])):
            ts.append(shorthand(r) if r.random() < 0.8 else other(r))
        long = None
        if r.random() < 0.02:
            n = r.choice([300, 1000, 3000])
            long = r.choice(["normal ", " ", "\n", "a, ", "serif ", "bold  ", ",", "1", "12px ", "12px/", ";"]) * n
            long = r.choice(["", "12px ", "12px x", "bold 12px/1 a, serif", "12px serif"]) + long + r.choice(["", "x", ";x"])
        yield dict(ts=ts, tag=r.choice(["text", "tspan"]), how=r.choice(["load", "build", "bare"]), long=long)


def corpus():
    for t, w, n, u, f, g in [
        ("12px serif", None, "12", "px", "", "serif"),
        ("italic  bold 12px/1.5 Arial, sans-serif", 700, "12", "px", "Arial", "sans-serif"),
        ("small-caps 700 condensed 1.2em 'Times New Roman', serif", 700, "1.2", "em", "'Times New Roman'", "serif"),
        ("bolder 80% x,monospace;", 400, "80", "%", "x", "monospace"),
        ("normal normal normal normal 10pt/14pt a, b, fantasy", None, "10", "pt", "a, b", "fantasy"),
    ]:
        yield dict(ts=[dict(t=t, w=w, n=n, u=u, f=f, g=g)], tag="text", how="build", long=None)
    yield dict(ts=[dict(t="normal " * 40 + "x")], tag="text", how="build", long="12px" + " " * 3000 + "x")


FIELDS = ("font_weight", "font_size", "font_face", "font_family")


def held(node):
    return {k: repr(v) for k, v in vars(node).items() if k != "attributes" and not k.startswith("_")}, dict(node.attributes)


def run(c, mon):
    import io
    from svgio import nodes
    from svgio.basic import Length

    if c["how"] == "load":
        node = nodes.Document(io.StringIO("<svg xmlns='http://www.w3.org/2000/svg'><%s font-size='3'>x</%s></svg>" % (c["tag"], c["tag"])))[0][0]
    elif c["how"] == "build":
        node = getattr(nodes.Document().svg(), c["tag"])()
    else:
        node = {"text": nodes.Text, "tspan": nodes.TSpan}[c["tag"]]()
    mon.feat(c["how"], c["tag"])
    for d in c["ts"]:
        t = d["t"]
        before = held(node)
        node.parse_font(t)
        mon.state(t)
        if "g" not in d:
            mon.check(held(node) == before, "not-a-shorthand", lambda: "%r changed %r to %r" % (t, before[0], held(node)[0]))
            mon.ev("ignored")
            continue
        mon.nontrivial(t)
        mon.ev("shorthand")
        if d["w"] is not None:
            mon.check(getattr(node, "font_weight", None) == d["w"], "weight", lambda: "%r of %r, expected %r" % (getattr(node, "font_weight", None), t, d["w"]))
        else:
            mon.check(held(node)[0].get("font_weight") == before[0].get("font_weight"), "weight-made-up", lambda: "%r of %r" % (getattr(node, "font_weight", None), t))
        size = getattr(node, "font_size", None)
        px = units.pixels(float(d["n"]), d["u"], {})
        if px is not None:
            mon.check(not isinstance(size, Length) and abs(size - px[0]) <= px[1] + 1e-12, "size", lambda: "%r of %r, expected %r" % (size, t, px[0]))
        else:
            mon.check(isinstance(size, Length) and size.amount == float(d["n"]) and size.units == d["u"], "size:relative", lambda: "%r of %r" % (size, t))
        if d["f"]:
            mon.check(getattr(node, "font_face", None) == d["f"], "names", lambda: "%r of %r, expected %r" % (getattr(node, "font_face", None), t, d["f"]))
        else:
            mon.check(held(node)[0].get("font_face") == before[0].get("font_face"), "names-made-up", lambda: "%r of %r" % (getattr(node, "font_face", None), t))
        mon.check(getattr(node, "font_family", None) == d["g"], "generic", lambda: "%r of %r" % (getattr(node, "font_family", None), t))
        now = held(node)
        mon.check(now[1] == before[1] and {k: v for k, v in now[0].items() if k in before[0] and k not in FIELDS} == {k: v for k, v in before[0].items() if k not in FIELDS}, "other-values", lambda: "%r: %r" % (t, now))
        node.parse_font(t)
        mon.check(held(node) == now, "again", lambda: t)
        mon.feat("unit:" + d["u"], "weight:%s" % d["w"], d["g"], "line:%d" % ("/" in t), "names:%d" % bool(d["f"]))
    if c["long"]:
        node.parse_font(c["long"])
        mon.ev("long", len(c["long"]))
