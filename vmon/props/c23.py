"""C23: saving and re-loading loses nothing."""
import io
import os
import random
import re
import subprocess
import sys
import xml.etree.ElementTree as ET

from .. import core, dom, gen
from . import c22

ID = "C23"
FILES = True
REGEX = re.compile(r"^matrix\(([^()]*)\)$")
RULE = (
    "documents (some of hundreds of elements with long texts, or 180 deep) loaded from random XML or created node by node through constructors and factories, then up to 12 random edits (attribute set, replaced and deleted, also "
    "with numbers, matrices, colours and lengths; children added, moved, inserted, deleted; further text loaded; character data set); after loading and between edits the whole document and inner nodes are saved with "
    "str, xml() and Document.write, the text is read by ElementTree and by the library and compared with the model, and the tree with a snapshot. "
    "Non-trivial: a document with more than one element; distinct by saved text."
)
QUICK, THOROUGH = 7000, 250000
MIN = 2000
ASSUMPTIONS = [
    "element names are compared after removing the SVG namespace, which svgio does not write",
    "carriage returns are excluded (XML parsers turn them into newlines)",
    "Document.write is claimed for documents with one root",
    "matrices, colours and lengths held as attributes are read back through their own class",
]


def typed(r):
    """An attribute holding one of the library's values, as a name and what it is made from."""
    k = r.choice(["matrix", "matrix", "color", "length"])
    if k == "matrix":
        return r.choice(["transform", "gradientTransform"]), [k, gen.matrix(r)]
    if k == "color":
        return r.choice(["fill", "stroke", "color"]), [k, r.choice(["red", "#123", "#12345678", "rgb(1, 2, 3)", "#%08x" % r.getrandbits(32)])]
    return r.choice(["x", "width", "r", "stroke-width"]), [k, r.choice(["1", "3.5", "-2", "0.25", "100"]) + r.choice(["", "px", "pt", "mm", "in", "%", "em"])]


class Typed:
    """Such a value in the model."""

    def __init__(self, made):
        from svgio.basic import Color, Length, Matrix

        self.kind = made[0]
        self.cls = {"matrix": Matrix, "color": Color, "length": Length}[made[0]]
        self.value = Matrix(*made[1]) if made[0] == "matrix" else self.cls(made[1])

    def check(self, text, mon, desc):
        if self.kind == "matrix":
            m = REGEX.match(text or "")
            got = m and [float(x) for x in m.group(1).replace(",", " ").split()]
            mon.check(got == [self.value.a, self.value.b, self.value.c, self.value.d, self.value.e, self.value.f], "value:matrix", lambda: "%r for %r; %s" % (text, self.value, desc()))
        mon.check(text is not None and self.cls(text) == self.value, "value:" + self.kind, lambda: "%r for %r; %s" % (text, self.value, desc()))
        mon.ev("value:" + self.kind)


def cases(r):
    while True:
        size = r.choice([1, 2, 3, 5, 8, 13, 25])
        edits = []
        for _ in range(r.choice([0, 0, 1, 2, 4, 12])):
            k = r.choice(["set", "set", "set", "unset", "del", "add", "add", "insert", "move", "parse", "text", "tail", "clear"])
            e = [k, r.random(), r.random()]
            if k == "set":
                key = r.choice(dom.NAMES)
                e += [key, r.choice([r.choice([0, 1, -3, 0.5, 1e-9, 10.25, True, None]), dom.value(r), dom.value(r)])]
                if r.random() < 0.2:
                    key, e[-1] = typed(r)
                    e[-2] = key
                if key == "id":
                    e[-1] = r.choice(c22.IDS)
            elif k in ("add", "insert"):
                e += [r.choice(list(dom.CLASSES)), dom.attrs(r, c22.IDS)]
            elif k == "parse":
                e += [dom.tree(r, r.choice([1, 2, 5]), c22.IDS), r.getrandbits(32)]
            elif k in ("text", "tail"):
                e += [dom.text(r)]
            edits.append(e)
        yield dict(tree=dom.tree(r, size, c22.IDS) if r.random() > 0.01 else dom.large(r, c22.IDS), make=r.choice(["load", "load", "load", "factory", "construct"]), edits=edits, seed=r.getrandbits(32), fancy=r.random() < 0.7)


def build(m, parent, nodes, how):
    """Creates the model below a node without loading text."""
    key = m["tag"]
    kw = dict(m["attrs"])
    if how == "factory" and not m["ns"] and key in dom.CLASSES:
        n = getattr(parent, key)(**kw)
    else:
        cls = getattr(nodes, dom.CLASSES.get(key, "Node") if not m["ns"] else "Node")
        n = cls(**kw)
        parent.append(n)
        n.parent = parent
        n.document = parent.document
    n.character_data = m["text"] or None
    n.character_tail = m["tail"] or None
    for k in m["kids"]:
        build(k, n, nodes, how)
    return n


def plain(m):
    """Only what constructors can make: SVG elements."""
    if m["ns"] or m["tag"] not in dom.CLASSES:
        m = dict(m, ns="", tag="g")
    return dict(m, kids=[plain(k) for k in m["kids"]])


def snapshot(node):
    return [(id(n), n.tag(), list(n.attributes.items()), [id(k) for k in n], id(n.parent), id(n.document), n.character_data, n.character_tail) for n in c22.nodes(node)]


def pairs(m, n):
    yield m, n
    for a, b in zip(m["kids"], list(n)):
        for x in pairs(a, b):
            yield x


def as_text(m, elem=None, mon=None, desc=None):
    """The model with texts for values; those of the library's types must be read back equal from the text written."""
    attrs = {}
    for k, v in m["attrs"].items():
        if isinstance(v, Typed):
            attrs[k] = None if elem is None else elem.get(k)
            if elem is not None:
                v.check(attrs[k], mon, desc)
        else:
            attrs[k] = str(v)
    elems = list(elem) if elem is not None else []
    elems += [None] * len(m["kids"])
    return dict(m, attrs=attrs, kids=[as_text(k, e, mon, desc) for k, e in zip(m["kids"], elems)])


def compare_text(m, n, mon, key, desc):
    for a, b in pairs(m, n):
        mon.check((b.character_data or "") == a["text"], key + ":text", lambda: "%r, expected %r; %s" % (b.character_data, a["text"], desc()))
        if a is not m:
            mon.check((b.character_tail or "") == a["tail"], key + ":tail", lambda: "%r, expected %r; %s" % (b.character_tail, a["tail"], desc()))


def saved(m, n, mon, how, Document, cls_ok):
    """Saves node n, whose model is m, and reads it again in two ways."""
    before = snapshot(n)
    if how == "str":
        text = str(n)
    elif how == "xml":
        text = n.xml()
    else:
        path = os.path.join(core.scratch(), "w%d.svg" % os.getpid())
        n.document.write(path)
        with open(path, "rb") as f:
            text = f.read().decode("utf-8")
    mon.ev("saved:" + how)
    mon.check(snapshot(n) == before, "save:mutates", lambda: how)
    desc = lambda: "%s wrote %r" % (how, text[:500])
    try:
        elem = ET.fromstring(text)
        dom.check_wellformed(text)
    except Exception as e:
        mon.fail("malformed", "%s: %s" % (e, desc()))
    want = as_text(m, elem, mon, desc)
    dom.compare_etree(want, elem, mon, "xml", desc)
    if how == "write":
        again = Document(path)
    else:
        again = Document(io.StringIO(text))
    mon.check(len(again) == 1, "reload:roots", desc)
    k = dom.compare(want, again[0], mon, "reload", desc, again, again, classes=cls_ok)
    compare_text(want, again[0], mon, "reload", desc)
    mon.check(str(again[0]) == text and again[0].xml() == text, "rewrite", lambda: "%r; %s" % (str(again[0])[:500], desc()))
    mon.ev("elements", k)
    if k > 1:
        mon.nontrivial(text)
    return text


# run by another interpreter: reads a document from one file and writes it to another
CHILD = """
import sys
sys.path.insert(0, sys.argv[1])
from svgio.nodes import Document
Document(sys.argv[2]).write(sys.argv[3])
"""


def corpus():
    """Documents with characters outside ASCII, read and written where the locale's own encoding cannot write them."""
    r = random.Random("locale")
    for i in range(4):
        tree = dom.tree(r, 4, c22.IDS)
        tree["text"] = "\u00e9 \u4e2d \U0001f600"
        tree["attrs"]["data-x"] = "\u00df\u03a9"
        yield dict(locale=["C", "POSIX"][i % 2], tree=tree, seed=i)


def elsewhere(c, mon):
    from svgio.nodes import Document

    tree = dom.clone(c["tree"])
    tree["tail"] = ""
    a = os.path.join(core.scratch(), "a%d.svg" % os.getpid())
    b = os.path.join(core.scratch(), "b%d.svg" % os.getpid())
    with open(a, "wb") as f:
        f.write(dom.write(random.Random(c["seed"]), tree, False).encode("utf-8"))
    env = dict(os.environ, LC_ALL=c["locale"], PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONIOENCODING", None)
    p = subprocess.run([sys.executable, "-B", "-c", CHILD, core.REPO, a, b], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    desc = lambda: "written under %s, status %s %s" % (c["locale"], p.returncode, p.stderr.decode("utf-8", "replace")[-300:])
    mon.check(p.returncode == 0, "locale:fails", desc)
    mon.ev("saved:locale")
    with open(b, "rb") as f:
        data = f.read()
    try:
        elem = ET.fromstring(data)
    except Exception as e:
        mon.fail("locale:malformed", "%s: %s" % (e, desc()))
    dom.compare_etree(tree, elem, mon, "locale", desc)
    dom.compare(tree, Document(b)[0], mon, "locale", desc, links=False)


def run(c, mon):
    if "locale" in c:
        return elsewhere(c, mon)
    from svgio import nodes
    from svgio.nodes import Document

    r = random.Random(c["seed"])
    tree = dom.clone(c["tree"])
    tree["tail"] = ""
    mon.feat("make:" + c["make"])
    if c["make"] == "load":
        doc = Document(io.StringIO(dom.write(r, tree, c["fancy"])))
    else:
        tree = plain(tree)
        doc = Document()
        build(tree, doc, nodes, c["make"])
    root = doc[0]

    def save():
        every = list(pairs(tree, root))
        a = saved(tree, root, mon, r.choice(["str", "xml"]), Document, True)
        b = saved(tree, root, mon, "write", Document, True)
        mon.check(a == b, "write-differs", lambda: "%r and %r" % (a[:300], b[:300]))
        m, n = r.choice(every)
        saved(m, n, mon, r.choice(["str", "xml"]), Document, True)

    save()
    for e in c["edits"]:
        every = list(pairs(tree, root))
        m, n = every[int(e[1] * len(every))]
        k = e[0]
        if k == "set":
            value = Typed(e[4]) if isinstance(e[4], (list, tuple)) else e[4]
            n.attributes[e[3]] = value.value if isinstance(value, Typed) else value
            m["attrs"] = dict(m["attrs"])
            m["attrs"][e[3]] = value
        elif k == "unset":
            if not m["attrs"]:
                continue
            key = list(m["attrs"])[int(e[2] * len(m["attrs"]))]
            del n.attributes[key]
            del m["attrs"][key]
        elif k == "del":
            if not m["kids"]:
                continue
            i = int(e[2] * len(m["kids"]))
            del n[i]
            del m["kids"][i]
        elif k == "add":
            getattr(n, e[3])(**e[4])
            m["kids"].append(dict(ns="", tag=e[3], attrs=dict(e[4]), text="", kids=[], tail=""))
        elif k == "insert":
            i = int(e[2] * (len(m["kids"]) + 1))
            new = getattr(nodes, dom.CLASSES[e[3]])(**e[4])
            new.parent, new.document = n, doc
            n.insert(i, new)
            m["kids"].insert(i, dict(ns="", tag=e[3], attrs=dict(e[4]), text="", kids=[], tail=""))
        elif k == "move":
            # to the end of its own parent
            if not m["kids"]:
                continue
            i = int(e[2] * len(m["kids"]))
            n.append(n.pop(i))
            m["kids"].append(m["kids"].pop(i))
        elif k == "parse":
            new = dom.clone(e[3])
            new["tail"] = ""
            n.parse(io.StringIO(dom.write(random.Random(e[4]), new, True)))
            m["kids"].append(new)
        elif k == "text":
            n.character_data = e[3]
            m["text"] = e[3]
        elif k == "tail":
            if m is tree:
                continue
            n.character_tail = e[3]
            m["tail"] = e[3]
        elif k == "clear":
            if e[2] < 0.7:
                continue
            n.clear()
            del m["kids"][:]
        mon.ev("edit:" + k)
        if r.random() < 0.4:
            save()
    save()
    mon.state(dom.shape_of(tree))
