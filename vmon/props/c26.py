"""C26: building elements through the DOM equals loading them."""
import io
import random
import xml.etree.ElementTree as ET

from .. import dom
from . import c22
from .c23 import as_text, compare_text

ID = "C26"
RULE = (
    "histories of up to 40 factory calls on random nodes of a document (or of a detached node), over every element kind, with positional arguments (numbers or texts, any leading part of "
    "the documented ones) and keyword arguments, some through a factory object fetched earlier and called several times; after each call the new node, its parent's children and the id table are "
    "compared with the model, at the end the whole tree and its saved XML with those of the equivalent text. Non-trivial: three or more calls; distinct by history."
)
QUICK, THOROUGH = 25000, 500000
MIN = 1500
ASSUMPTIONS = ["positional arguments beyond the documented ones, dictionaries as arguments and naming an attribute both ways are not claimed"]
POSITIONAL = {
    "rect": ["x", "y", "width", "height", "rx", "ry"],
    "circle": ["cx", "cy", "r"],
    "ellipse": ["cx", "cy", "rx", "ry"],
    "line": ["x1", "y1", "x2", "y2"],
    "polyline": ["points"],
    "polygon": ["points"],
    "path": ["d"],
}
# other spellings of factory names
ALIAS = {"clipPath": ["clipPath", "clip_path"], "linearGradient": ["linearGradient"], "radialGradient": ["radialGradient"]}
KEYS = [k for k in dom.NAMES] + ["stroke_width", "fill_opacity", "x-y", "cls", "node", "kwargs", "args", "name", "source"]
IDS = ["a", "b", "c", "é", "x-1", "0"]


def val(r, key):
    if key == "points":
        return r.choice(["0,0 1,1", "0 0", "", "1,2 3,4 5,6"])
    if key == "d":
        return r.choice(["M0,0L1,1z", "", "m 1 2"])
    if key == "id":
        return r.choice(IDS)
    if r.random() < 0.6:
        return r.choice([0, 1, 2.5, -3, 10, 100.25, 1e-7, "10", "50%", "1px", "-2.5"])
    return dom.value(r)


def cases(r):
    while True:
        calls = []
        for _ in range(r.choice([1, 3, 6, 12, 40])):
            tag = r.choice(list(dom.CLASSES)) if r.random() < 0.5 else r.choice(list(POSITIONAL))
            names = POSITIONAL.get(tag, [])
            n = r.choice([0, len(names), r.randint(0, len(names))])
            args = [val(r, k) for k in names[:n]]
            kw = {}
            for _ in range(r.choice([0, 1, 2, 4])):
                k = r.choice(KEYS) if r.random() < 0.7 else r.choice(["id", "x", "y", "width", "height", "rx", "ry", "r", "cx", "cy", "d", "points"])
                if k not in names[:n]:
                    kw[k] = val(r, k)
            calls.append([r.random(), r.choice(ALIAS.get(tag, [tag])), tag, args, kw, r.choice(["direct", "direct", "direct", "kept", "again"])])
        yield dict(calls=calls, document=r.random() < 0.85, seed=r.getrandbits(32))


def run(c, mon):
    from svgio import nodes
    from svgio.nodes import Document

    r = random.Random(c["seed"])
    if c["document"]:
        doc = top = Document()
    else:
        doc, top = None, nodes.Group()
    root_model = dict(ns="", tag="top", attrs={}, text="", kids=[], tail="")
    every = [(root_model, top)]
    kept = {}
    last = {}
    log = []
    for at, name, tag, args, kw, how in c["calls"]:
        # the document itself gets one child
        if len(every) == 1:
            i = 0
        else:
            i = 1 + int(at * (len(every) - 1))
        m, parent = every[i]
        before = [[id(k) for k in n] for _, n in every]
        builder = getattr(parent, name)
        mon.check([[id(k) for k in n] for _, n in every] == before, "factory-attribute-adds", name)
        times = 1
        if how == "kept" and (i, name) in kept:
            builder = kept[i, name]
            mon.ev("kept-factory")
        elif how == "again" and i:
            times = 2
        kept[i, name] = builder
        for _ in range(times):
            before = [[id(k) for k in n] for _, n in every]
            given = dict(kw)
            node = builder(*args, **kw)
            log.append([i, name, args, kw])
            desc = lambda: "after %r" % log[-8:]
            mon.check(kw == given, "arguments-changed", desc)
            for j, (_, n) in enumerate(every):
                now = [id(k) for k in n]
                want = before[j] + [id(node)] if j == i else before[j]
                mon.check(now == want, "appends-one", lambda: "children of node %d: %r, expected %r; %s" % (j, now, want, desc()))
            mon.check(type(node) is getattr(nodes, dom.CLASSES[tag]), "class", lambda: "%r; %s" % (type(node), desc()))
            mon.check(node.parent is parent and node.document is doc and node.owner_document is doc, "links", desc)
            mon.check(len(node) == 0, "children", desc)
            attrs = dict(kw)
            attrs.update(zip(POSITIONAL.get(tag, []), args))
            got = dict(node.attributes)
            mon.check(got == attrs and all(type(got[k]) is type(attrs[k]) for k in got), "attributes", lambda: "%r, expected %r; %s" % (got, attrs, desc()))
            mon.check(node.tag() == tag, "tag", lambda: "%r; %s" % (node.tag(), desc()))
            # the constructor alone gives the same, unattached
            alone = getattr(nodes, dom.CLASSES[tag])(*args, **kw)
            mon.check(alone.attributes == attrs and alone.parent is None and alone.document is None and alone.tag() == tag, "constructor", lambda: "%r; %s" % (alone.attributes, desc()))
            mon.check(alone.attributes is not node.attributes, "shared-attributes", desc)
            a = dict(ns="", tag=tag, attrs=attrs, text="", kids=[], tail="")
            m["kids"].append(a)
            every.append((a, node))
            if "id" in attrs:
                last[attrs["id"]] = node
            if doc is not None:
                for k in IDS:
                    mon.check(doc.get_element_by_id(k) is last.get(k), "id", lambda: "%r; %s" % (k, desc()))
            mon.ev("call:" + tag)
            mon.feat("%s/%d" % (tag, len(args)))
    built = top[0]
    model = as_text(root_model["kids"][0])
    text = dom.write(r, model, True)
    desc = lambda: "%r, for %r" % (text[:600], c["calls"][:6])
    other = Document(io.StringIO(text))
    dom.compare(model, other[0], mon, "loaded", desc, other, other)
    dom.compare(model, built, mon, "built", desc, top, doc)
    compare_text(model, built, mon, "built", desc)
    a, b = str(built), other[0].xml()
    mon.check(ET.canonicalize(a) == ET.canonicalize(b), "xml", lambda: "built writes %r, loaded %r" % (a[:600], b[:600]))
    if doc is not None:
        for k in IDS:
            x, y = doc.get_element_by_id(k), other.get_element_by_id(k)
            mon.check((x is None) == (k not in last), "ids", desc)
    mon.check(built.is_equal_node(built), "equal-itself", desc)
    if len(every) > 3:
        mon.nontrivial(log)
    mon.state(dom.shape_of(root_model))
