"""C22: loading a document mirrors its XML exactly."""
import io
import os
import random

from .. import core, dom

ID = "C22"
RULE = (
    "random trees of 1 to 60 elements, sometimes hundreds or 180 deep, over all 28 SVG tags, unknown and foreign-namespace tags, look-alike siblings and any attributes, written as XML "
    "with random namespace style (default, prefixed, local, none), quoting, entities, character references, CDATA, comments, processing "
    "instructions and encodings, loaded from text streams, byte streams and files, at once or several documents one after another into the document or into inner nodes; the node "
    "tree is compared with the model, and what was there before a further load with a snapshot. Non-trivial: more than one element; distinct by text."
)
QUICK, THOROUGH = 24000, 500000
MIN = 1500
ASSUMPTIONS = ["element names are compared after removing the SVG namespace; elements without a namespace count as SVG"]
IDS = ["a", "b", "c", "é", "x-1", "none", "", " a", "a ", "A", "#a"]
FILES = True


def cases(r):
    while True:
        docs = []
        for i in range(r.choice([1, 1, 1, 2, 3])):
            size = r.choice([1, 2, 3, 5, 8, 13, 25, 60])
            t = dom.tree(r, size, IDS) if r.random() > 0.006 else dom.large(r, IDS)
            if r.random() < 0.02:
                n = r.choice(list(dom.walk(t)))
                n["attrs"]["big"] = "v " * r.choice([9000, 40000])
                n["text"] = "t\n" * r.choice([10, 20000])
            docs.append(dict(tree=t, how=r.choice(["str", "str", "bytes", "latin", "ascii", "utf16", "bom", "file"]), fancy=r.random() < 0.8, at=r.random(), seed=r.getrandbits(32)))
        yield dict(docs=docs, root=r.choice(["document", "document", "document", "element", "late"]))


def source(d):
    """(source for loading, text) of one document."""
    r = random.Random(d["seed"])
    enc, limit = {"latin": ("iso-8859-1", 256), "ascii": ("us-ascii", 128), "utf16": ("utf-16", None), "bom": ("utf-8-sig", None)}.get(d["how"], ("utf-8", None))
    ents = {} if r.random() < 0.3 and d["fancy"] else None
    body = dom.write(r, d["tree"], d["fancy"], limit, ents)
    head = ""
    if d["how"] != "str":
        decl = {"utf-8-sig": "utf-8"}.get(enc, enc)
        if enc not in ("utf-8",) or r.random() < 0.5:
            head = '<?xml version="1.0" encoding="%s"?>\n' % decl
    elif r.random() < 0.2:
        head = '<?xml version="1.0"?>\n'
    if ents:
        head += "<!DOCTYPE svg [\n%s]>\n" % "".join('<!ENTITY %s "%s">\n' % (k, v) for k, v in ents.items())
    elif d["fancy"] and r.random() < 0.1:
        head += '<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN" "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">\n'
    if d["fancy"]:
        head += r.choice(["", "", "<!-- lead -->\n", "<?x y?>"])
        body += r.choice(["", "\n", "<!-- trail -->"])
    text = head + body
    if d["how"] == "str":
        return io.StringIO(text), text
    data = text.encode(enc)
    dom.check_wellformed(data)
    if d["how"] == "file":
        path = os.path.join(core.scratch(), "d%d.svg" % os.getpid())
        with open(path, "wb") as f:
            f.write(data)
        return path, text
    return io.BytesIO(data), text


def snapshot(node):
    return [(id(n), n.tag(), dict(n.attributes), [id(k) for k in n], id(n.parent), id(n.document), n.character_data, n.character_tail) for n in nodes(node)]


def nodes(node):
    yield node
    for k in list(node):
        for x in nodes(k):
            yield x


def texts(m, node, mon, desc, top=True):
    """Character data: before the first child, and after each element up to the next one."""
    mon.check((node.character_data or "") == m["text"], "mirror:text", lambda: "%r, expected %r in %s; %s" % (node.character_data, m["text"], dom.describe(m), desc()))
    if not top:
        mon.check((node.character_tail or "") == m["tail"], "mirror:tail", lambda: "%r, expected %r after %s; %s" % (node.character_tail, m["tail"], dom.describe(m), desc()))
    for a, b in zip(m["kids"], node):
        texts(a, b, mon, desc, False)


def run(c, mon):
    from svgio.nodes import Document, Group, Node

    doc = None
    tops = []  # (model tree, parent node) of everything loaded
    order = []
    for i, d in enumerate(c["docs"]):
        src, text = source(d)
        desc = lambda: "loaded %r" % text[:400]
        mon.feat("how:" + d["how"], "root:" + c["root"])
        if i == 0 and c["root"] == "document":
            doc = Document(src)
            target = doc
        elif i == 0 and c["root"] == "late":
            doc = Document()
            target = doc
            if isinstance(src, str) and len(text) % 2:
                target.read(src)
            else:
                target.parse(src)
        elif i == 0:
            # a node without a document
            doc = None
            target = random.Random(d["seed"]).choice([Group, Node])()
            order.append(target)
            target.parse(src)
        else:
            every = [n for t in order for n in nodes(t)]
            target = every[int(d["at"] * len(every))]
            before = [snapshot(t) for t in order]
            kids = [id(k) for k in target]
            target.parse(src)
            mon.ev("further-load")
            # what was there is undisturbed, apart from the new last child of the target
            new = target[-1]
            mon.check([id(k) for k in target][:-1] == kids, "further:children", desc)
            del target[-1]
            after = [snapshot(t) for t in order]
            mon.check(after == before, "further:disturbs", desc)
            target.append(new)
        if i == 0:
            if target not in order or not order:
                order.append(target)
            mon.check(len(target) == 1, "roots", desc)
        n = dom.compare(d["tree"], target[-1], mon, "mirror", desc, target, doc)
        texts(d["tree"], target[-1], mon, desc)
        mon.ev("elements", n)
        mon.ev("documents")
        tops.append(d["tree"])
        for m in dom.walk(d["tree"]):
            mon.feat("tag:" + m["tag"] if not m["ns"] and m["tag"] in dom.CLASSES else "tag:other")
        if n > 1:
            mon.nontrivial(text)
        mon.state(dom.shape_of(d["tree"]))
    # attributes are each node's own
    every = [n for t in order for n in nodes(t)]
    for i, n in enumerate(every):
        n.attributes["vmon-probe"] = str(i)
    for i, n in enumerate(every):
        mon.check(n.attributes.get("vmon-probe") == str(i), "own-attributes", lambda: "%r holds %r set on another node" % (n.tag(), n.attributes.get("vmon-probe")))
        del n.attributes["vmon-probe"]
    if doc is not None:
        mon.check(doc.document is doc and doc.parent is None, "document-links")
        last = {}
        for t in tops:
            for m in dom.walk(t):
                if "id" in m["attrs"]:
                    last[m["attrs"]["id"]] = m
        for k, m in last.items():
            e = doc.get_element_by_id(k)
            mon.check(e is not None and dom.strip_ns(e.tag()) == dom.full_name(m) and e.attributes == m["attrs"], "id", lambda: "%r gives %r" % (k, e))
