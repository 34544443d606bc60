"""Random XML documents: a plain tree model, a writer with many spellings, and comparison with real nodes.

A model node is a dict: ns ("" for SVG, else a namespace uri), tag, attrs ({name or {uri}name: value}), text, kids, tail.
"""
import xml.parsers.expat

SVG = "http://www.w3.org/2000/svg"
XLINK = "http://www.w3.org/1999/xlink"
XML = "http://www.w3.org/XML/1998/namespace"
OTHER = ["http://www.inkscape.org/namespaces/inkscape", "urn:x", XLINK, "http://www.w3.org/1999/xhtml"]
# foreign namespaces that look like the SVG one
ALIKE = [SVG + "x", SVG + "/", SVG + "2", "http://www.w3.org/2000/SVG", "https://www.w3.org/2000/svg", "http://www.w3.org/2000/sv", "svg", "urn:" + SVG]
# tag -> name of its node class
CLASSES = {
    "svg": "SVG", "g": "Group", "defs": "Defs", "symbol": "Symbol", "marker": "Marker", "use": "Use", "style": "Style",
    "script": "Script", "a": "Hyperlink", "text": "Text", "tspan": "TSpan", "path": "Path", "line": "Line", "rect": "Rect",
    "circle": "Circle", "ellipse": "Ellipse", "polyline": "Polyline", "polygon": "Polygon", "image": "Image",
    "title": "Title", "desc": "Desc", "metadata": "Metadata", "clipPath": "ClipPath", "mask": "Mask", "switch": "Switch",
    "linearGradient": "LinearGradient", "radialGradient": "RadialGradient", "pattern": "Pattern",
}
UNKNOWN = ["stop", "filter", "feBlend", "animate", "foreignObject", "textPath", "view", "Rect", "node", "G", "document", "element", "font-face", "set"]
NAMES = [
    "id", "class", "style", "x", "y", "width", "height", "cx", "cy", "r", "rx", "ry", "x1", "y1", "x2", "y2", "points", "d", "fill", "stroke",
    "fill-opacity", "stroke-opacity", "stroke-width", "transform", "viewBox", "preserveAspectRatio", "href", "version", "tag", "data-x", "dx", "dy",
    "parent", "document", "attributes", "_private", "offset", "clip-path", "font-size", "text", "name",
    "{%s}href" % XLINK, "{%s}title" % XLINK, "{%s}space" % XML, "{%s}lang" % XML, "{%s}label" % OTHER[0], "{urn:x}id", "{urn:x}fill",
]
CHARS = list("abcXYZ 019-_.:;,#%()/") + ["<", ">", "&", '"', "'", "\t", "\n", "é", "ß", "中", "\U0001f600", "  ", "]]>", "&amp;", "url(#a)", " ", "none", "\x85"]


def large(r, ids, strings=True):
    """A document that is read in many chunks: hundreds of elements with long texts between them, or a deep one."""
    if r.random() < 0.3:
        top = node = tree(r, 2, ids, strings)
        for _ in range(r.choice([40, 120, 180])):
            kid = tree(r, r.choice([1, 1, 1, 2]), ids, strings, 1)
            node["kids"].append(kid)
            node = kid
    else:
        top = tree(r, r.choice([150, 300, 500]), ids, strings)
    if strings:
        for n in walk(top):
            n["text"] += text(r) * r.choice([0, 1, 10, 40])
            n["tail"] += text(r) * r.choice([0, 1, 10, 40])
            if r.random() < 0.01:
                n["tail"] += text(r, False) * 5000
    return top


def text(r, allow_empty=True, chars=CHARS):
    n = r.choice([0, 1, 2, 3, 5, 8, 20])
    t = "".join(r.choice(chars) for _ in range(n))
    return t if t or allow_empty else "v"


def value(r):
    k = r.random()
    if k < 0.4:
        return r.choice(["10", "red", "#123456", "none", "0.5", "translate(1,2)", "0 0 10 10", "50%", "M0,0L1,1", "1,2 3,4", "url(#a)", "", " ", "a b"])
    return text(r)


def name(r):
    """A name outside the fixed list."""
    return "".join(r.choice("abcdefgh") for _ in range(r.randint(1, 6))) + r.choice(["", "-x", "_1", ".2"])


def attrs(r, ids, many=None):
    out = {}
    if many is None:
        many = r.choice([0, 0, 1, 2, 3, 6]) if r.random() < 0.98 else r.choice([12, 20, 40])
    for _ in range(many):
        k = r.choice(NAMES) if r.random() < 0.9 else name(r)
        if k == "id":
            out[k] = r.choice(ids)
        else:
            out[k] = value(r)
    return out


def tree(r, size, ids, strings=True, depth=0):
    k = r.random()
    if depth == 0 and k < 0.8:
        ns, tag = "", "svg"
    elif k < 0.8:
        ns, tag = "", r.choice(list(CLASSES))
    elif k < 0.9:
        ns, tag = "", r.choice(UNKNOWN) if r.random() < 0.8 else name(r)
    else:
        ns, tag = r.choice(OTHER if r.random() < 0.7 else ALIKE), r.choice(list(CLASSES) + UNKNOWN)
    node = dict(ns=ns, tag=tag, attrs=attrs(r, ids), text="", kids=[], tail="")
    if strings and r.random() < 0.4:
        node["text"] = r.choice(["\n  ", " ", text(r), text(r), "body { fill: red }"])
    left = size - 1
    twin = None
    while left > 0:
        n = r.randint(1, left)
        if twin is not None and r.random() < 0.25:
            kid = clone(twin)  # siblings that look alike
            if r.random() < 0.4:
                kid["attrs"] = shuffled(r, kid["attrs"])
        else:
            kid = tree(r, n, ids, strings, depth + 1)
            if r.random() < 0.08:
                kid["attrs"] = dict(node["attrs"])  # the same attributes as its parent
        left -= count(kid)
        twin = kid
        if strings and r.random() < 0.4:
            kid["tail"] = r.choice(["\n", " ", text(r), text(r)])
        node["kids"].append(kid)
        if depth > 0 and r.random() < 0.4:
            break
    if depth == 0 and r.random() < 0.015:
        # one very deep branch, or very many children
        if r.random() < 0.5:
            branch = tree(r, 2, ids, strings, 1)
            for _ in range(r.choice([25, 60, 110])):
                branch = dict(ns="", tag=r.choice(["g", "g", "a", "switch", "defs"]), attrs=attrs(r, ids, r.choice([0, 0, 1])), text=text(r) if r.random() < 0.1 else "", kids=[branch], tail="")
            node["kids"].insert(r.randint(0, len(node["kids"])), branch)
        else:
            for _ in range(r.choice([40, 130, 300])):
                node["kids"].insert(r.randint(0, len(node["kids"])), tree(r, 1, ids, strings, 1))
    return node


def shuffled(r, d):
    items = list(d.items())
    r.shuffle(items)
    return dict(items)


def clone(n):
    return dict(n, attrs=dict(n["attrs"]), kids=[clone(k) for k in n["kids"]])


def count(n):
    return 1 + sum(count(k) for k in n["kids"])


def walk(n):
    yield n
    for k in n["kids"]:
        for x in walk(k):
            yield x


def full_name(n):
    return ("{%s}" % n["ns"] if n["ns"] else "") + n["tag"]


# -- writing ------------------------------------------------------------------------------------------------


def esc(r, t, attr, fancy, quote='"', plain_ascii=False, limit=None):
    out = []
    i = 0
    while i < len(t):
        ch = t[i]
        i += 1
        o = ord(ch)
        if ch == "&":
            out.append(r.choice(["&amp;", "&#38;", "&#x26;"]) if fancy else "&amp;")
        elif ch == "<":
            out.append(r.choice(["&lt;", "&#60;"]) if fancy else "&lt;")
        elif ch == ">":
            out.append(r.choice(["&gt;", "&#x3E;"]) if fancy else "&gt;")
        elif attr and ch in "\t\n\r":
            out.append("&#%d;" % o)
        elif ch == "\r":
            out.append("&#13;")
        elif attr and ch == quote:
            out.append("&quot;" if quote == '"' else "&apos;")
        elif (limit and o >= limit) or (fancy and o > 126 and r.random() < 0.3):
            out.append(r.choice(["&#%d;" % o, "&#x%x;" % o]))
        elif fancy and r.random() < 0.02:
            out.append("&#%d;" % o)
        else:
            out.append(ch)
    return "".join(out)


def write(r, root, fancy=True, limit=None, entities=None):
    """XML text of a model tree, in a random spelling; limit: code points from there on are written as references."""
    style = r.choice(["default", "default", "prefix", "none", "local"]) if fancy else r.choice(["default", "none"])
    svgp = r.choice(["svg", "s", "ns0"]) if style == "prefix" else None
    prefixes = {XLINK: r.choice(["xlink", "l"]), OTHER[0]: "inkscape", "urn:x": r.choice(["x", "svg2"]), OTHER[3]: "h", XML: "xml"}
    prefixes.update({uri: "k%d" % i for i, uri in enumerate(ALIKE)})

    def junk():
        if not fancy or r.random() > 0.15:
            return ""
        return r.choice(["<!-- c -->", "<!-- <rect id='a'/> & -->", "<?pi data?>", "<!---->"])

    def chars(t):
        if not t:
            return junk() if fancy else ""
        k = r.random()
        if fancy and k < 0.15 and "]]>" not in t and "\r" not in t and not (limit and any(ord(c) >= limit for c in t)):
            return "<![CDATA[" + t + "]]>"
        if fancy and k < 0.25 and len(t) > 1:
            i = r.randint(1, len(t) - 1)
            return chars(t[:i]) + junk() + chars(t[i:])
        return esc(r, t, False, fancy, limit=limit)

    def elem(n, scope, top):
        decl = {}
        if n["ns"]:
            p = prefixes[n["ns"]]
            if fancy and r.random() < 0.2:
                q = ""  # as default namespace
                if scope.get("") != n["ns"]:
                    decl[""] = n["ns"]
                tag = n["tag"]
            else:
                if scope.get(p) != n["ns"]:
                    decl[p] = n["ns"]
                tag = p + ":" + n["tag"]
        elif style == "prefix":
            if scope.get(svgp) != SVG:
                decl[svgp] = SVG
            tag = svgp + ":" + n["tag"]
        elif style == "none":
            if scope.get(""):
                decl[""] = ""
            tag = n["tag"]
        else:
            if scope.get("") != SVG or (style == "local" and r.random() < 0.3):
                decl[""] = SVG
            tag = n["tag"]
        parts = []
        for k, v in n["attrs"].items():
            if k.startswith("{"):
                uri, local = k[1:].split("}")
                p = prefixes[uri]
                if p != "xml" and scope.get(p) != uri:
                    decl[p] = uri
                k = p + ":" + local
            q = r.choice(['"', "'"]) if fancy else '"'
            text_ = esc(r, v, True, fancy, q, limit=limit)
            if entities is not None and fancy and v and "&" not in text_ and r.random() < 0.2:
                if v.isascii() and not set(v) & set("<&>\"'%\n\t\r"):
                    text_ = "&e%d;" % len(entities)
                    entities["e%d" % len(entities)] = v
            parts.append((k, q, text_))
        for p, uri in decl.items():
            item = ("xmlns:" + p if p else "xmlns", '"', uri)
            parts.insert(r.randint(0, len(parts)) if fancy else 0, item)
        sp = lambda: r.choice([" ", " ", "\n", "  "]) if fancy else " "
        eq = lambda: r.choice(["=", "=", " = "]) if fancy else "="
        head = "<" + tag + "".join(sp() + k + eq() + q + v + q for k, q, v in parts)
        inner = dict(scope, **decl)
        body = chars(n["text"]) + "".join(elem(k, inner, False) + chars(k["tail"]) for k in n["kids"])
        end = r.choice(["", " "]) if fancy else ""
        if not body and not (fancy and r.random() < 0.3):
            return head + end + "/>"
        return head + end + ">" + body + "</" + tag + end + ">"

    return elem(root, {}, True)


def check_wellformed(data):
    p = xml.parsers.expat.ParserCreate()
    p.Parse(data, True)


# -- comparison ---------------------------------------------------------------------------------------------


def describe(n):
    return [full_name(n), n["attrs"], len(n["kids"])]


def strip_ns(tag):
    return tag[len(SVG) + 2 :] if tag.startswith("{%s}" % SVG) else tag


def compare(model, node, mon, key, desc=lambda: "", parent=None, document=None, classes=True, links=True):
    """The real node mirrors the model: names, order, attributes, classes and links."""
    where = lambda: "%r; %s" % (describe(model), desc())
    mon.check(strip_ns(node.tag()) == full_name(model), key + ":name", lambda: "tag %r for %s" % (node.tag(), where()))
    got = {str(k): str(v) for k, v in node.attributes.items()}
    mon.check(got == model["attrs"], key + ":attributes", lambda: "%r for %s" % (got, where()))
    if classes:
        want = CLASSES.get(model["tag"], "Node") if not model["ns"] else "Node"
        mon.check(type(node).__name__ == want, key + ":class", lambda: "%s for %s" % (type(node).__name__, where()))
    if links:
        mon.check(node.parent is parent, key + ":parent", where)
        mon.check(node.document is document and node.owner_document is document, key + ":document", where)
    mon.check(len(node) == len(model["kids"]), key + ":children", lambda: "%r has %d children; %s" % (describe(model), len(node), desc()))
    n = 1
    for m, k in zip(model["kids"], list(node)):
        n += compare(m, k, mon, key, desc, node, document, classes, links)
    return n


def compare_etree(model, elem, mon, key, desc=lambda: "", tail=False):
    """The model against an ElementTree element parsed from written text, character data included."""
    where = lambda: "%r; %s" % (describe(model), desc())
    mon.check(strip_ns(elem.tag) == full_name(model), key + ":name", lambda: "%r for %s" % (elem.tag, where()))
    mon.check(dict(elem.attrib) == model["attrs"], key + ":attributes", lambda: "%r for %s" % (elem.attrib, where()))
    mon.check((elem.text or "") == model["text"], key + ":text", lambda: "%r, expected %r in %s" % (elem.text, model["text"], where()))
    if tail:
        mon.check((elem.tail or "") == model["tail"], key + ":tail", lambda: "%r, expected %r after %s" % (elem.tail, model["tail"], where()))
    mon.check(len(elem) == len(model["kids"]), key + ":children", lambda: "%d children for %s" % (len(elem), where()))
    for m, k in zip(model["kids"], elem):
        compare_etree(m, k, mon, key, desc, True)


def shape_of(n):
    return [full_name(n)] + [shape_of(k) for k in n["kids"]]
