"""C16: viewbox transforms fit the box into the viewport as SVG defines."""
import io
import itertools
import random

from .. import affine as A
from .. import dom, gen, units

ID = "C16"
RULE = (
    "random viewport rectangles and viewBoxes (matching and mismatching aspect ratios, equal to each other, shifted, tiny and huge) with "
    "each of the 19 align/meetOrSlice combinations, omitted meetOrSlice, empty and absent values; viewBox given as text in any "
    "separator spelling, as a dict, copied from another Viewbox or declared on an svg, image or pattern element (loaded or built), or passed to viewbox_transform; the transform text is applied to the box's corners and compared with SVG 8.2. "
    "Non-trivial: a transform other than nothing; distinct by case."
)
QUICK, THOROUGH = 360000, 4000000
MIN = 8000
ASSUMPTIONS = ["sizes are positive (zero or negative viewBox sizes are errors in SVG)", "the text carries 12 decimals, so the tolerance is 1e-12 of scale and shift times the coordinates"]
ALIGNS = ["none"] + ["x%sY%s" % p for p in itertools.product(["Min", "Mid", "Max"], repeat=2)]


class Element:
    def __init__(self, x, y, w, h):
        self.x, self.y, self.width, self.height = x, y, w, h


def size(r):
    return r.choice([1, 100, 200, 0.5, r.randint(1, 1000), r.uniform(1, 1000), gen.positive(r, "tame"), r.uniform(0.01, 1), r.uniform(1e3, 1e5)])


def origin(r):
    return [0, 0] if r.random() < 0.4 else [gen.number(r, "tame") for _ in range(2)]


def cases(r):
    while True:
        v = origin(r) + [size(r), size(r)]
        e = origin(r) + [size(r), size(r)]
        k = r.random()
        if k < 0.1:
            e = list(v)
        elif k < 0.2:
            e[2:] = v[2:]
        elif k < 0.3:
            f = r.choice([2, 0.5, 3, r.uniform(0.1, 9)])
            e[2:] = [v[2] * f, v[3] * f]
        elif k < 0.4:
            i = r.choice([2, 3])
            e[i] = v[i]
        elif k < 0.45:
            e[:2] = v[:2]
        elif k < 0.48:
            e[r.choice([2, 3])] = 0
        align = r.choice(ALIGNS)
        mode = r.choice(["meet", "slice", None])
        aspect = r.choice([None, "", " "]) if r.random() < 0.12 else align + ("" if mode is None else r.choice([" ", " ", "  ", "\t"]) + mode)
        if aspect and r.random() < 0.1:
            aspect = " " + aspect + " "
        drop = None
        if r.random() < 0.1:
            drop = r.choice(["e", "v"]), r.randint(0, 3)
        sep = r.choice([" ", ",", ", ", " , ", "\n", "  ", "\t"])
        text = ""
        for x in v[: drop[1]] if drop and drop[0] == "v" else v:
            t = gen.spell_number(r, x, r.choice([0, 1]))
            text += ("" if not text or (t[0] in "-+" and r.random() < 0.5) else sep) + t
        yield dict(e=e, v=v, aspect=aspect, form=r.choice(["text", "dict", "dict+arg", "copy", "static", "svg"]), built=r.random() < 0.5, text=r.choice(["", " "]) + text, drop=drop)


def reference(e, v, aspect):
    parts = (aspect or "").split()
    align = parts[0] if parts else "xMidYMid"
    mode = parts[1] if len(parts) > 1 else "meet"
    sx, sy = e[2] / v[2], e[3] / v[3]
    if align != "none":
        sx = sy = min(sx, sy) if mode == "meet" else max(sx, sy)
    fx = fy = 0.0
    if align != "none":
        fx = {"Min": 0.0, "Mid": 0.5, "Max": 1.0}[align[1:4]]
        fy = {"Min": 0.0, "Mid": 0.5, "Max": 1.0}[align[5:8]]
    tx = e[0] - v[0] * sx + fx * (e[2] - v[2] * sx)
    ty = e[1] - v[1] * sy + fy * (e[3] - v[3] * sy)
    return (sx, 0.0, 0.0, sy, tx, ty), align, mode


def element(c, mon):
    """The transform of an svg, image or pattern element's own viewBox, its size given in numbers or absolute units."""
    from svgio.basic import Matrix
    from svgio.nodes import Document

    e, v, aspect, text = c["e"], [float(x) for x in c["v"]], c["aspect"], c["text"]
    r = random.Random(text)
    attrs, want_e = {}, []
    for k, x in zip(("x", "y", "width", "height"), e):
        if k in "xy" and x == 0 and r.random() < 0.5:
            want_e.append(0.0)
            continue
        unit = r.choice(["", "", "", "px", "pc", "in"])
        want_e.append(units.pixels(float(x), unit, dict(ppi=96.0))[0])
        attrs[k] = x if c["built"] and unit == "" else gen.spell_number(r, x, 0) + unit
    attrs["viewBox"] = text
    if aspect is not None:
        attrs["preserveAspectRatio"] = aspect
    tag = r.choice(["svg", "svg", "image", "pattern"])
    if c["built"]:
        node = Document().svg()
        node = getattr(r.choice([node, node.parent]), tag)(**attrs)
    else:
        model = dict(ns="", tag=tag, attrs=attrs, text="", kids=[], tail="")
        if tag != "svg":
            model = dict(ns="", tag="svg", attrs={}, text="", kids=[model], tail="")
        node = Document(io.StringIO(dom.write(r, model, True)))[0]
        if tag != "svg":
            node = node[0]
    given = dict(node.attributes)
    s = node.viewbox_transform
    want, align, mode = reference(want_e, v, aspect)
    big = max(abs(x) for x in list(want) + want_e + [v[0] * want[0], v[1] * want[3]])
    mon.check(A.close(A.of(Matrix(s)), want, 1e-12 + 1e-13 * big), tag + "-element", lambda: "%r for %r, expected %r" % (s, attrs, want))
    mon.check(dict(node.attributes) == given and node.viewbox_transform == s, tag + "-element-changed", lambda: repr(attrs))
    del node.attributes["viewBox"]
    mon.check(node.viewbox_transform == "", tag + "-element-none", lambda: repr(attrs))
    mon.ev(tag + "-element")
    mon.feat("align:%s %s" % (align, mode))
    if want != A.IDENT:
        mon.nontrivial()


def run(c, mon):
    from svgio.basic import Matrix, Viewbox

    e, v, aspect, drop, form = c["e"], c["v"], c["aspect"], c["drop"], c["form"]
    text = c["text"]
    mon.feat("form:" + form)
    if form == "text":
        vb = Viewbox(text, aspect)
    elif form == "dict":
        d = {"viewBox": text}
        if aspect is not None:
            d["preserveAspectRatio"] = aspect
        vb = Viewbox(d)
        if aspect is not None:
            only = Viewbox({"preserveAspectRatio": aspect})
            mon.check(only.preserve_aspect_ratio == aspect and only.x is None and only.height is None, "values:no-viewbox", lambda: repr(vars(only)))
            only.set_viewbox(text)
            mon.check(only.transform(Element(*e)) == vb.transform(Element(*e)), "set-viewbox", lambda: repr(vars(only)))
        mon.check(d.get("viewBox") == text and d.get("preserveAspectRatio") == aspect, "dict-changed", lambda: repr(d))
    elif form == "dict+arg":
        vb = Viewbox({"viewBox": text}, aspect)
    elif form == "copy":
        src = Viewbox(text, aspect)
        vb = Viewbox(src)
        src.x, src.y, src.width, src.height, src.preserve_aspect_ratio = 1, 2, 3, 4, "none"
    elif form == "svg" and not drop:
        return element(c, mon)
    else:
        vb = None
    el = Element(*e)
    if vb is not None and len(text) % 2:
        # used and written with other values before
        vb.x, vb.y, vb.width, vb.height, vb.preserve_aspect_ratio = 7.0, 8.0, 9.0, 10.0, "none"
        vb.transform(Element(1, 2, 3, 4)), vb.transform(el), str(vb), repr(vb)
        vb.x = vb.y = vb.width = vb.height = None
        vb.set_viewbox(text)
        vb.preserve_aspect_ratio = aspect
        mon.ev("used-before")
    if drop and drop[0] == "e":
        setattr(el, ["x", "y", "width", "height"][drop[1]], None)
    have = [float(x) for x in (v[: drop[1]] if drop and drop[0] == "v" else v)]
    if vb is not None:
        got = [vb.x, vb.y, vb.width, vb.height]
        mon.check(got == have + [None] * (4 - len(have)) and vb.preserve_aspect_ratio == aspect, "values", lambda: "Viewbox(%r) holds %r %r" % (text, got, vb.preserve_aspect_ratio))
        s = vb.transform(el)
        mon.check(vb.transform(el) == s, "repeat", lambda: repr(c))
        mon.check([vb.x, vb.y, vb.width, vb.height] == got and vb.preserve_aspect_ratio == aspect, "transform-mutates", lambda: repr(c))
        if not drop:
            again = Viewbox(str(vb))
            w = [again.x, again.y, again.width, again.height]
            mon.check(all(x is not None and abs(x - y) <= 1e-12 for x, y in zip(w, have)), "str", lambda: "%r re-read as %r, was %r" % (str(vb), w, have))
    else:
        s = Viewbox.viewbox_transform(el.x, el.y, el.width, el.height, *(have + [None] * (4 - len(have))), aspect)
    if drop:
        mon.check(s == "", "incomplete", lambda: "%r for %r" % (s, c))
        mon.ev("incomplete")
        return
    want, align, mode = reference([float(x) for x in e], have, aspect)
    mon.feat("align:%s %s" % (align, mode))
    m = A.of(Matrix(s))
    size_ = max(map(abs, have)) + 1
    big = max(abs(x) for x in list(want) + [float(x) for x in e] + [have[0] * want[0], have[1] * want[3]])
    tol = 1e-12 + 1e-13 * big
    mon.check(A.close(m, want, tol), "transform", lambda: "%r for viewport %r viewBox %r %r, expected %r" % (s, e, have, aspect, want))
    mon.ev("transform")
    if want != A.IDENT:
        mon.nontrivial()
    else:
        mon.check(s == "", "identity-text", lambda: repr(s))
    # semantics on the corners
    t = tol * (2 * size_ + 4)
    x0, y0 = A.apply(m, (have[0], have[1]))
    x1, y1 = A.apply(m, (have[0] + have[2], have[1] + have[3]))
    for lo, hi, a, b, k in ((x0, x1, e[0], e[0] + e[2], align[1:4]), (y0, y1, e[1], e[1] + e[3], align[5:8])):
        if align == "none":
            ok = abs(lo - a) <= t and abs(hi - b) <= t
        else:
            ok = (lo >= a - t and hi <= b + t) if mode == "meet" else (lo <= a + t and hi >= b - t)
            ok = ok and {"Min": abs(lo - a), "Max": abs(hi - b), "Mid": abs((lo + hi) - (a + b)) / 2}[k] <= t
        mon.check(ok, "fit", lambda: "%r puts [%r, %r] in [%r, %r] for %r" % (s, lo, hi, a, b, c))
    if align != "none":
        mon.check(abs((x1 - x0) - e[2]) <= t or abs((y1 - y0) - e[3]) <= t, "touches", lambda: "%r for %r" % (s, c))
    mon.state(align, mode, e[2] * v[3] > e[3] * v[2], s.count("("))
