"""C25: presentation values cascade from the nearest declaring ancestor."""
import io
import random

from .. import css_colors, dom
from . import c22

ID = "C25"
RULE = (
    "trees of every SVG element up to 60 deep, loaded from text, with the properties declared at random places, then up to 15 edits (values set, changed, removed "
    "on any node or on the document itself, nodes added, moved below another parent, ids added) with reads before and after each; every property of every node is compared with a "
    "nearest-ancestor search over the model, and the tree with a snapshot around the reads. Non-trivial: a property declared on more than one level "
    "above a reading node, or only above it; distinct by tree and declarations."
)
QUICK, THOROUGH = 7000, 250000
MIN = 1500
ASSUMPTIONS = [
    "a colour with its own alpha is not combined with an opacity property; opacity texts are numbers or non-numeric texts (which are ignored)",
    "style and class are not claimed: attribute access to `style` is taken by the element factories",
    "href: documents do not mix href and xlink:href in one chain of ancestors",
    "geometry: values are reported as given; position and center are not claimed",
]
OPAQUE = [(k, v) for k, v in css_colors.KEYWORDS.items()][::9] + [("#123456", (0x12, 0x34, 0x56)), ("#fA0", (255, 170, 0)), ("rgb(1,2,300)", (1, 2, 255)), ("rgb(100%, 0%, 20%)", (255, 0, 51))]
ALPHA = [("#11223344", (0x11, 0x22, 0x33, 0x44)), ("rgba(1,2,3,0.2)", (1, 2, 3, 51)), ("transparent", (0, 0, 0, 0))]
XY = [("x", "x", None), ("y", "y", None), ("width", "width", None), ("height", "height", None)]
HREF = [("href", "href", None)]
BOX = [("viewBox", "viewBox!", None), ("preserveAspectRatio", "preserveAspectRatio!", None)]
PAINT = [("fill", "fill", None), ("stroke", "stroke", None), ("fill_opacity", "fill-opacity", None), ("stroke_opacity", "stroke-opacity", None), ("stroke_width", "stroke-width", None)]
TR = [("transform", "transform", None)]
ID_ = [("id", "id!", None)]
# tag -> (property, attribute name, default); an attribute name with ! is not inherited
PROPS = {
    "svg": XY + BOX + TR,
    "g": TR,
    "a": HREF,
    "use": XY,
    "script": HREF,
    "mask": XY,
    "pattern": XY + HREF,
    "text": XY + [("dx", "dx", None), ("dy", "dy", None)] + PAINT + TR,
    "image": XY + HREF + BOX + PAINT + TR,
    "clipPath": [("unit_type", "clipPathUnits", "userSpaceOnUse")],
    "rect": [("x", "x", 0), ("y", "y", 0), ("width", "width", 1), ("height", "height", 1), ("rx", "rx", None), ("ry", "ry", None)] + PAINT + TR,
    "circle": [("cx", "cx", None), ("cy", "cy", None), ("r", "r", None)] + PAINT + TR,
    "ellipse": [("cx", "cx", None), ("cy", "cy", None), ("rx", "rx", None), ("ry", "ry", None)] + PAINT + TR,
    "line": [("x1", "x1", None), ("y1", "y1", None), ("x2", "x2", None), ("y2", "y2", None)] + PAINT + TR,
    "polyline": [("points", "points", None)] + PAINT + TR,
    "polygon": [("points", "points", None)] + PAINT + TR,
    "path": [("d", "d", None)] + PAINT + TR,
}
PROPS["tspan"] = PROPS["text"]
for _tag in dom.CLASSES:
    PROPS[_tag] = PROPS.get(_tag, []) + ID_
KEYS = ["fill", "stroke", "fill-opacity", "stroke-opacity", "stroke-width", "transform", "x", "y", "width", "height", "rx", "ry", "cx", "cy", "r", "x1", "y1", "x2", "y2", "points", "d", "dx", "dy", "HREF", "viewBox", "preserveAspectRatio", "clipPathUnits", "id"]


def value(r, key, alpha):
    if key in ("fill", "stroke"):
        if alpha and r.random() < 0.3:
            return r.choice(ALPHA)[0]
        return r.choice(OPAQUE)[0] if r.random() < 0.85 else "none"
    if key.endswith("opacity"):
        return r.choice(["0", "1", "0.5", ".25", "0.3", "5e-1", "1.5", "-0.5", "0.999", "abc", "", "0.1.2"])
    if key == "id":
        return r.choice(["a", "b", "c"])
    return r.choice(["0", "1", "10", "-2.5", "50%", "1px", "a", "", "translate(1,2)", "0 0 1 1", "url(#x)", "M0,0"])


def declare(r, alpha, href):
    out = {}
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        k = r.choice(KEYS) if r.random() < 0.7 else r.choice(KEYS[:6])
        if alpha and k.endswith("opacity"):
            continue
        out[href if k == "HREF" else k] = value(r, k, alpha)
    return out


def numbers(r, d):
    """Some values given as numbers instead of text."""
    for k in d:
        if k.endswith("opacity") and r.random() < 0.3:
            d[k] = r.choice([0, 1, 0.0, 1.0, 0.5, 0.25, 2, -1])
        elif k in ("stroke-width", "x", "width", "r", "rx") and r.random() < 0.3:
            d[k] = r.choice([0, 0.0, 1, 2.5])
    return d


def tree(r, size, deep, alpha, href, depth=0):
    tag = r.choice(list(dom.CLASSES)) if r.random() < 0.95 else r.choice(["stop", "view"])
    node = dict(ns="", tag=tag, attrs=declare(r, alpha, href), text="", kids=[], tail="")
    left = size - 1
    while left > 0:
        n = left if r.random() < deep else r.randint(1, left)
        node["kids"].append(tree(r, n, deep, alpha, href, depth + 1))
        left -= n
    return node


def cases(r):
    while True:
        alpha = r.random() < 0.3
        href = r.choice(["href", "{%s}href" % dom.XLINK])
        edits = []
        for _ in range(r.choice([0, 1, 3, 6, 15])):
            k = r.choice(["set", "set", "set", "unset", "add", "move", "top"])
            e = [k, r.random(), r.random()]
            if k in ("set", "top"):
                d = {}
                while not d:
                    d = numbers(r, declare(r, alpha, href))
                e.append(d)
            elif k == "add":
                e += [r.choice(list(PROPS)), numbers(r, declare(r, alpha, href))]
            edits.append(e)
        yield dict(tree=tree(r, r.choice([1, 2, 4, 8, 12, 20, 20, 60]), r.random(), alpha, href), edits=edits, seed=r.getrandbits(32))


def colour(text, opacity):
    """(value is none, rgba) for a paint text and an opacity text."""
    if text == "none":
        return None
    for k, v in OPAQUE:
        if k == text:
            a = 255.0
            break
    else:
        v, a = [(v[:3], float(v[3])) for k, v in ALPHA if k == text][0]
    if opacity is not None:
        try:
            a = min(max(float(opacity), 0.0), 1.0) * 255
        except ValueError:
            pass
    return tuple(v) + (a,)


def run(c, mon):
    from svgio.nodes import Document

    r = random.Random(c["seed"])
    root = dom.clone(c["tree"])
    doc = Document(io.StringIO(dom.write(r, root, True)))
    top = dict(ns="", tag="document", attrs={}, kids=[root])
    log = []

    def everything(m=top, n=doc, chain=()):
        yield m, n, chain
        for a, b in zip(m["kids"], list(n)):
            for x in everything(a, b, (m,) + chain):
                yield x

    def snapshot():
        return [(id(n), n.tag(), list(n.attributes.items()), [id(k) for k in n], id(n.parent), id(n.document)) for n in c22.nodes(doc)]

    def find(key, m, chain):
        if key.endswith("!"):
            return m["attrs"].get(key[:-1]), 0
        for i, a in enumerate((m,) + chain):
            if key in a["attrs"]:
                return a["attrs"][key], i
            if key == "href" and "{%s}href" % dom.XLINK in a["attrs"]:
                return a["attrs"]["{%s}href" % dom.XLINK], i
        return None, -1

    def read():
        before = snapshot()
        desc = lambda: "after %r of %r" % (log, c["tree"])
        interesting = False
        for m, n, chain in everything():
            merged = {}
            for a in reversed((m,) + chain):
                merged.update(a["attrs"])
            got = Document.get_values(n)
            mon.check(got == merged, "get_values", lambda: "%r, expected %r; %s" % (got, merged, desc()))
            # the result is a copy
            got["fill"] = "broken"
            got.pop("stroke", None)
            for prop, key, default in PROPS.get(m["tag"], []):
                want, level = find(key, m, chain)
                real = getattr(n, prop)
                where = lambda: "%s of %r is %r, declared %r %d up; %s" % (prop, dom.describe(m), real, want, level, desc())
                if prop in ("fill", "stroke"):
                    if want is None:
                        mon.check(real is None, prop + ":absent", where)
                    else:
                        rgba = colour(want, find(prop + "-opacity", m, chain)[0])
                        if rgba is None:
                            mon.check(real is not None and real.value is None, prop + ":none", where)
                        else:
                            mon.check((real.red, real.green, real.blue) == rgba[:3], prop + ":colour", where)
                            mon.check(abs(real.alpha - rgba[3]) <= 0.5000001, prop + ":opacity", lambda: "alpha %r, expected %r; %s" % (real.alpha, rgba[3], where()))
                elif level < 0:
                    mon.check(real == default and type(real) is type(default), "%s:default" % prop, where)
                elif want is None:
                    mon.check(real is None, "%s:own" % prop, where)
                else:
                    mon.check(real == want, "%s:value" % prop, where)
                mon.ev("own" if level == 0 else "inherited" if level > 0 else "default")
                if level > 0:
                    interesting = True
                    mon.feat("depth:%d" % level, "inherit:%s.%s" % (m["tag"], prop))
        mon.check(snapshot() == before, "mutates", desc)
        if interesting:
            mon.nontrivial([(m["tag"], sorted(m["attrs"].items())) for m, _, _ in everything()])

    read()
    for e in c["edits"]:
        every = list(everything())[1:]
        m, n, chain = every[int(e[1] * len(every))]
        k = e[0]
        if k == "top":
            m, n = top, doc
        if k in ("set", "top"):
            if k == "top" and e[2] < 0.3:
                doc.attributes.clear()
                top["attrs"] = {}
            else:
                n.attributes.update(e[3])
                m["attrs"] = dict(m["attrs"], **e[3])
        elif k == "unset":
            if not m["attrs"]:
                continue
            key = list(m["attrs"])[int(e[2] * len(m["attrs"]))]
            del n.attributes[key]
            del m["attrs"][key]
        elif k == "add":
            getattr(n, e[3])(**e[4])
            m["kids"].append(dict(ns="", tag=e[3], attrs=dict(e[4]), text="", kids=[], tail=""))
        elif k == "move":
            inside = [id(x) for x in dom.walk(m)]
            others = [x for x in every if id(x[0]) not in inside]
            if m is root or not others:
                continue
            a, b, _ = others[int(e[2] * len(others))]
            old = chain[0]
            i = [x is m for x in old["kids"]].index(True)
            del old["kids"][i]
            del n.parent[i]
            a["kids"].append(m)
            b.append(n)
            n.parent = b
        log.append(e[:1] + e[3:])
        mon.ev("edit:" + k)
        read()
    mon.state([(m["tag"], sorted(m["attrs"])) for m, _, _ in everything()])
