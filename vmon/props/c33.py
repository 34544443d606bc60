"""C33: image elements decode the data URL they carry."""
import base64
import io
import os
import random

from .. import affine as A
from .. import core, dom
from .c30 import transform

ID = "C33"
RULE = (
    "images loaded from text or built, whose href (href or xlink:href, declared on the image or an ancestor, added or changed later) is a base64 data URL of random bytes "
    "(0 to 3000) of each supported type, the same with spaces and line breaks inside, another data URL, a file name, empty or absent; data is compared with those bytes, "
    "twice and after every change. Pictures of random size, written by Pillow as PNG or JPEG into a data URL or a file (found by its path or in the directory given), are loaded: "
    "the size taken, and bbox() before and after, with and without the transforms of the image and what is above it, are compared with that size. Non-trivial: bytes were decoded; distinct by case."
)
QUICK, THOROUGH = 200000, 1500000
MIN = 8000
FILES = True
ASSUMPTIONS = ["documents do not mix href and xlink:href in one chain of ancestors", "types are written in lower case, as the code matches them"]
TYPES = ["image/png", "image/jpg", "image/jpeg", "image/svg+xml"]
OTHER = ["data:image/gif;base64,", "data:text/plain;base64,", "data:image/png,", "data:image/svg+xml;utf8,", "data:image/svg+xml;charset=utf-8;base64,", "data:,", "DATA", "image.png", "http://x/y.png?data:image/png;base64,", "#a", "", "data:image/", "data:image/pngx;base64,", "data:image/jp2;base64,", "data:image/jpx;base64,", "data:image/jpe;base64,", "data:image/webp;base64,", "data:image/svg;base64,", "data:image/pn;base64,", "xdata:image/png;base64,"]


def content(r):
    k = r.random()
    n = r.choice([0, 1, 2, 3, 4, 5, 57, 58, 300, 3000]) if k < 0.7 else r.randint(0, 100)
    if r.random() < 0.2:
        return bytes([r.choice([0, 255, 0xFB, 0xFF, 0x3E, 0x3F])] * n)
    return r.randbytes(n)


def url(r):
    """[text, bytes as hex or None]"""
    k = r.random()
    if k < 0.05:
        return [None, None]
    b = content(r)
    t = base64.b64encode(b).decode()
    if k < 0.3:
        return [r.choice(OTHER) + (t if r.random() < 0.6 else ""), None]
    if r.random() < 0.2 and t:
        n = r.choice([4, 64, 76])
        t = r.choice([" ", "\n", " \n ", "\r\n"]).join(t[i:i + n] for i in range(0, len(t), n))
    return ["data:%s;base64,%s" % (r.choice(TYPES), t), b.hex()]


def picture(r):
    """A case of load()."""
    return dict(
        picture=[r.choice([1, 2, 3, 16, r.randint(1, 300)]), r.choice([1, 2, 3, 16, r.randint(1, 300)])], format=r.choice(["png", "png", "jpg", "jpeg"]),
        where=r.choice(["data", "data", "path", "directory", "missing", "missing-directory"]), mode=r.choice(["RGB", "L"]),
        own=transform(r) if r.random() < 0.6 else None, above=[transform(r) if r.random() < 0.4 else None for _ in range(r.choice([0, 0, 1, 2]))],
        times=transform(r) if r.random() < 0.2 else None, key=r.choice(["href", "{%s}href" % dom.XLINK]), sizes=r.random() < 0.5,
        name=r.choice(["picture.png", "Picture.PNG", "a b.jpg", "sub/dir/p.png", "Sub/x", "\u00e9.png", "p%20q.png", "data.png", "x" * 100, "#1.png", "./p.png", "sub/../q.png", "a'b&c.png"]), twice=r.random() < 0.3,
    )


def cases(r):
    while True:
        if r.random() < 0.06:
            yield picture(r)
            continue
        yield dict(
            urls=[url(r) for _ in range(r.choice([1, 1, 2, 4]))],
            key=r.choice(["href", "{%s}href" % dom.XLINK]), up=r.choice([0, 0, 0, 1, 3]), how=r.choice(["load", "load", "build"]), seed=r.getrandbits(32),
        )


def box_of(w, h, m):
    ps = [A.apply(m, p) for p in ((0, 0), (w, 0), (w, h), (0, h))]
    return min(p[0] for p in ps), min(p[1] for p in ps), max(p[0] for p in ps), max(p[1] for p in ps)


def load(c, mon):
    from svgio import nodes
    from svgio.basic import Matrix

    try:
        from PIL import Image
    except ImportError:
        mon.ev("no-Pillow")
        return
    doc = nodes.Document()
    at = doc.svg()
    chain = []
    for tr in c["above"]:
        at = at.g(**({} if tr is None else {"transform": tr[0]}))
        chain.insert(0, tr)
    folder = os.path.join(core.scratch(), "p%d" % os.getpid())
    os.makedirs(folder, exist_ok=True)
    name = c["name"]
    path = os.path.join(folder, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path):
        os.remove(path)  # left behind by a violation
    out = io.BytesIO()
    Image.new(c["mode"], tuple(c["picture"])).save(out, "PNG" if c["format"] == "png" else "JPEG")
    attrs = {} if c["own"] is None else {"transform": c["own"][0]}
    chain.insert(0, c["own"])
    if c["sizes"]:
        attrs.update(x="3", y=4, width="50", height=60)
    if c["where"] == "data":
        attrs[c["key"]] = "data:image/%s;base64,%s" % (c["format"], base64.b64encode(out.getvalue()).decode())
    else:
        if not c["where"].startswith("missing"):
            with open(path, "wb") as f:
                f.write(out.getvalue())
        attrs[c["key"]] = name if c["where"].endswith("directory") else path
    node = at.image(**attrs)
    if c["times"] is not None:
        node *= Matrix(*c["times"][1])
        chain.insert(1, c["times"])
    given = dict(node.attributes)
    m = A.IDENT
    big = 300.0
    for tr in chain:
        if tr is not None:
            m = A.mul(m, tr[1])
            big *= max(1.0, *[abs(x) for x in tr[1]])
    tol = 1e-11 * big
    near = lambda p, q: len(p) == 4 and all(abs(a - b) <= tol for a, b in zip(p, q))
    for step in ("before", "after", "again"):
        if step == "after" or (step == "again" and c["twice"]):
            node.load(folder) if c["where"].endswith("directory") else node.load()
        if step == "before" or c["where"].startswith("missing"):
            w = h = 0
            mon.check(node.image_width is None and node.image_height is None, "load:size-unknown", lambda: repr((node.image_width, node.image_height, c)))
        else:
            w, h = c["picture"]
            mon.check((node.image_width, node.image_height) == (w, h), "load:size", lambda: repr((node.image_width, node.image_height, c)))
            mon.nontrivial()
        mon.check(near(node.bbox(), box_of(w, h, m)) and node.bbox(transformed=True) == node.bbox(), "bbox:transformed", lambda: "%r, expected %r: %r" % (node.bbox(), box_of(w, h, m), c))
        mon.check(near(node.bbox(transformed=False), (0, 0, w, h)), "bbox:plain", lambda: "%r: %r" % (node.bbox(transformed=False), c))
        mon.check(dict(node.attributes) == given, "load:changed", lambda: repr(c))
        mon.ev("load:" + step)
    mon.feat("load:" + c["where"], c["format"])
    mon.state(c["where"], c["format"], [tr is None for tr in chain])
    if os.path.exists(path):
        os.remove(path)


def run(c, mon):
    if "picture" in c:
        return load(c, mon)
    from svgio import nodes

    r = random.Random(c["seed"])
    first, data = c["urls"][0]
    model = dict(ns="", tag="image", attrs={}, text="", kids=[], tail="")
    chain = [model]
    for _ in range(3):
        model = dict(ns="", tag=r.choice(["g", "a", "svg"]), attrs={}, text="", kids=[model], tail="")
        chain.append(model)
    if first is not None:
        chain[c["up"]]["attrs"][c["key"]] = first
    if c["how"] == "load":
        doc = nodes.Document(io.StringIO(dom.write(r, model, True)))
        node = doc[0][0][0][0]
        real = [node, doc[0][0][0], doc[0][0], doc[0]]
    else:
        doc = nodes.Document()
        real = [doc]
        for m in reversed(chain):
            real.insert(0, getattr(real[0], m["tag"])(**m["attrs"]))
        node = real[0]
    mon.feat("up:%d" % c["up"], c["how"])
    declared = {}
    if first is not None:
        declared[c["up"]] = c["urls"][0]
    step = 0
    while True:
        near = [declared[i] for i in sorted(declared)]
        text, want = near[0] if near else (None, None)
        want = None if want is None else bytes.fromhex(want)
        for _ in range(2):
            got = node.data
            mon.check(got == want and (got is None or isinstance(got, bytes)), "data", lambda: "%r for %r, expected %r" % (got and got[:80], text and text[:120], want and want[:80]))
        kind = "none" if want is None else text[5:text.index(";")]
        mon.ev(kind)
        mon.feat(kind, "len%%3:%d" % (len(want) % 3 if want is not None else -1))
        if want:
            mon.nontrivial()
        step += 1
        if step >= len(c["urls"]):
            break
        u = c["urls"][step]
        i = r.randint(0, 3)
        if u[0] is None:
            declared.pop(i, None)
            real[i].attributes.pop(c["key"], None)
        else:
            declared[i] = u
            real[i].attributes[c["key"]] = u[0]
    mon.state(c["up"], len(c["urls"]), sorted(declared))
