"""C24: ids resolve and navigation agrees with the tree."""
import io
import random

from .. import dom
from . import c22

ID = "C24"
RULE = (
    "documents with repeated ids and look-alike siblings, loaded and then changed by up to 15 further loads, factory additions, insertions, deletions and moves at any node; "
    "after every change the navigation properties of every node are compared with the child lists of the model, and every id ever used (and some never used) is "
    "looked up directly and by url. Non-trivial: a tree of three or more elements; distinct by shape and ids."
)
QUICK, THOROUGH = 16000, 350000
MIN = 1500
ASSUMPTIONS = [
    "after deletions and id attribute edits the id table is not claimed",
    "element_ variants are claimed where they exist (nodes of SVG tags)",
]
IDS = ["a", "b", "c", "x-1", "ab", "A", "a.b", "1", "é", "none", "a b", "", " a", "a "]


def cases(r):
    while True:
        ids = IDS[: r.choice([1, 2, 4, len(IDS)])]
        ops = []
        for _ in range(r.choice([0, 1, 2, 4, 8, 15])):
            k = r.choice(["add", "add", "add", "add", "parse", "insert", "del", "move"])
            e = [k, r.random(), r.random()]
            if k in ("add", "insert"):
                a = dom.attrs(r, ids)
                if r.random() < 0.5:
                    a["id"] = r.choice(ids)
                e += [r.choice(list(dom.CLASSES)), r.choice([a, a, {}])]
            elif k == "parse":
                e += [dom.tree(r, r.choice([1, 2, 5]), ids), r.getrandbits(32)]
            ops.append(e)
        tree = dom.tree(r, r.choice([1, 3, 5, 8, 13, 25]), ids)
        for m in dom.walk(tree):
            if r.random() < 0.3:
                m["attrs"] = dict(m["attrs"], id=r.choice(ids))
            elif r.random() < 0.3:
                m["attrs"] = {}
        yield dict(tree=tree, ops=ops, seed=r.getrandbits(32), document=r.random() < 0.85)


def same(a, b):
    """is_equal_node by the model."""
    return (
        dom.full_name(a) == dom.full_name(b)
        and a["attrs"] == b["attrs"]
        and len(a["kids"]) == len(b["kids"])
        and all(same(x, y) for x, y in zip(a["kids"], b["kids"]))
    )


def navigate(m, n, i, siblings, ancestors, doc, mon, desc):
    """Every navigation property of n, the i-th of `siblings`, below `ancestors` (nearest first)."""
    kids = list(n)
    where = lambda prop: lambda: "%s of %r (child %d of %d); %s" % (prop, dom.describe(m), i, len(siblings), desc())

    def want(prop, expected):
        got = getattr(n, prop)
        mon.check(got is expected, prop, lambda: "%r, expected %r: %s" % (got, expected, where(prop)()))

    first, last = (kids[0], kids[-1]) if kids else (None, None)
    nxt = siblings[i + 1] if i + 1 < len(siblings) else None
    prev = siblings[i - 1] if i > 0 else None
    want("first_child", first)
    want("last_child", last)
    want("next_sibling", nxt)
    want("previous_sibling", prev)
    parent = ancestors[0] if ancestors else None
    want("parent_node", parent)
    want("parent_element", parent)
    want("owner_document", doc)
    mon.check(n.has_child_nodes() is bool(kids), "has_child_nodes", where("has_child_nodes"))
    mon.check(n.is_connected is (parent is not None), "is_connected", where("is_connected"))
    if not m["ns"] and m["tag"] in dom.CLASSES:
        want("first_element_child", first)
        want("last_element_child", last)
        want("next_element_sibling", nxt)
        want("previous_element_sibling", prev)
        mon.check(n.child_element_count == len(kids), "child_element_count", where("child_element_count"))
        ch = n.children
        mon.check(len(ch) == len(kids) and all(a is b for a, b in zip(ch, kids)), "children", where("children"))
        mon.check(n.id == m["attrs"].get("id"), "id", where("id"))
    mon.ev("navigated")
    if nxt is not None and prev is not None:
        mon.ev("middle-siblings")


def run(c, mon):
    from svgio import nodes
    from svgio.nodes import Document

    r = random.Random(c["seed"])
    tree = dom.clone(c["tree"])
    tree["tail"] = ""
    if c["document"]:
        top = Document(io.StringIO(dom.write(r, tree, True)))
        doc = top
    else:
        top = nodes.Group()
        doc = None
        top.parse(io.StringIO(dom.write(r, tree, True)))
    roots = [tree]
    last = {}
    log = []
    deleted = [False]

    def register(m, node):
        for a, b in pairs(m, node):
            if "id" in a["attrs"]:
                last[a["attrs"]["id"]] = b

    def pairs(m, n):
        yield m, n
        for a, b in zip(m["kids"], list(n)):
            for x in pairs(a, b):
                yield x

    def everything():
        for m, n in zip(roots, list(top)):
            for x in pairs(m, n):
                yield x

    def check():
        desc = lambda: "after %r of %r" % (log, c["tree"])
        mon.check(len(top) == len(roots), "roots", desc)
        mon.check(top.first_child is (top[0] if len(top) else None) and top.last_child is (top[-1] if len(top) else None), "top:child", desc)
        mon.check(top.next_sibling is None and top.previous_sibling is None and top.parent_node is None, "top:outside", desc)
        mon.check(top.has_child_nodes() is bool(len(top)) and top.owner_document is doc, "top:links", desc)

        def visit(m, n, i, sib, anc):
            mon.check(len(n) == len(m["kids"]), "children", desc)
            navigate(m, n, i, sib, anc, doc, mon, desc)
            if r.random() < 0.3:
                got = list(Document.get_ancestors(n))
                exp = [n] + anc
                mon.check(len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), "get_ancestors", lambda: "%r, expected %r; %s" % (got, exp, desc()))
            for j, (a, b) in enumerate(zip(m["kids"], list(n))):
                visit(a, b, j, list(n), [n] + anc)

        kids = list(top)
        for i, (m, n) in enumerate(zip(roots, kids)):
            visit(m, n, i, kids, [top])
        every = list(everything())
        for _ in range(3):
            (a, x), (b, y) = r.choice(every), r.choice(every)
            mon.check(x.is_same_node(y) is (x is y), "is_same_node", desc)
            e = same(a, b)
            mon.check(bool(x.is_equal_node(y)) is e and bool(y.is_equal_node(x)) is e, "is_equal_node", lambda: "%r and %r: %r, expected %r" % (a, b, x.is_equal_node(y), e))
            mon.ev("equal" if e and x is not y else "compared")
        if r.random() < 0.3:
            # a node written anew, its attributes in another order
            a, x = r.choice([x for x in every if dom.count(x[0]) < 30] or every)
            b = dom.clone(a)
            b["attrs"] = dom.shuffled(r, b["attrs"])
            y = Document(io.StringIO(dom.write(r, dict(b, tail=""), True)))[0]
            mon.check(bool(x.is_equal_node(y)) and bool(y.is_equal_node(x)), "is_equal_node:rebuilt", lambda: "%r with %r" % (a, b["attrs"]))
            mon.ev("rebuilt")
        if doc is not None and not deleted[0]:
            for k in IDS:
                want = last.get(k)
                for how, got in (
                    ("id", doc.get_element_by_id(k)),
                    ("url", doc.get_element_by_url("url(#%s)" % k) if k == k.strip() != "" else want),
                ):
                    mon.check(got is want, "by-" + how, lambda: "%r gives %r, expected %r; %s" % (k, got, want, desc()))
                mon.ev("looked-up" if want is not None else "absent")
            mon.check(doc.get_element_by_id("zz") is None and doc.get_element_by_url("url(#zz)") is None, "absent", desc)
        if len(every) > 2:
            mon.nontrivial([(dom.full_name(m), m["attrs"].get("id"), len(m["kids"])) for m, _ in every])
        mon.state([(dom.full_name(m), len(m["kids"])) for m, _ in every])

    register(tree, top[0])
    check()
    for e in c["ops"]:
        every = list(everything())
        if not every:
            break
        m, n = every[int(e[1] * len(every))]
        k = e[0]
        if k == "add":
            new = getattr(n, e[3])(**e[4])
            a = dict(ns="", tag=e[3], attrs=dict(e[4]), text="", kids=[], tail="")
            m["kids"].append(a)
            mon.check(len(n) == len(m["kids"]) and n[-1] is new, "add", lambda: repr(e))
            register(a, new)
        elif k == "parse":
            new = dom.clone(e[3])
            n.parse(io.StringIO(dom.write(random.Random(e[4]), new, True)))
            m["kids"].append(new)
            register(new, n[-1])
        elif k == "insert":
            i = int(e[2] * (len(m["kids"]) + 1))
            attrs = {x: y for x, y in e[4].items() if x != "id"}
            new = getattr(nodes, dom.CLASSES[e[3]])(**attrs)
            new.parent, new.document = n, doc
            n.insert(i, new)
            m["kids"].insert(i, dict(ns="", tag=e[3], attrs=attrs, text="", kids=[], tail=""))
        elif k == "del":
            if not m["kids"]:
                continue
            i = int(e[2] * len(m["kids"]))
            del n[i]
            del m["kids"][i]
            deleted[0] = True
        elif k == "move":
            if not m["kids"]:
                continue
            i = int(e[2] * len(m["kids"]))
            n.append(n.pop(i))
            m["kids"].append(m["kids"].pop(i))
        log.append(k)
        mon.ev("op:" + k)
        check()
