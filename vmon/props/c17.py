"""C17: lengths convert, add, divide and compare as the CSS units they denote."""
from .. import gen, units

ID = "C17"
RULE = (
    "random lengths in all thirteen units, made from text in any number spelling, numbers, pairs or copies; histories of in-place and plain "
    "operations with lengths, text and numbers as either operand; resolution under full, partial and empty contexts with the relative length "
    "given as a number, text or length; to_mm/to_cm/to_inch; all comparison operators. Results are compared with CSS values, operands "
    "with their snapshots. Non-trivial: two operands of different units; distinct by case."
)
QUICK, THOROUGH = 480000, 8000000
MIN = 20000
ASSUMPTIONS = [
    "values are compared to the precision of the library's own constants (1pt = 1.3333px, 1mm = 0.0393701in)",
    "unclaimed: a zero amount compared for equality with another unit, division by a zero length, and ordering of values closer than that precision",
]
FAMILY = {"": "px", "px": "px", "pt": "px", "pc": "px", "in": "in", "cm": "in", "mm": "in"}
REST = ["%", "em", "ex", "vw", "vh", "vmin", "vmax"]
ALL = list(FAMILY) + REST
OPS = ["+", "-", "/", "*", "neg", "abs", "+=", "-=", "*=", "r+", "r-", "cmp", "copy"]


def amount(r):
    k = r.random()
    if k < 0.08:
        return 0
    if k < 0.4:
        return r.randint(-20, 20) or 3
    v = gen.number(r, "tame")
    return v if v == 0 or abs(v) > 1e-6 else 1.5


def length(r, like=None):
    k = r.random()
    if like is not None and k < 0.45:
        u = r.choice([x for x in FAMILY if FAMILY[x] == FAMILY.get(like)] or [like])
    elif like is not None and k < 0.6:
        u = like
    else:
        u = r.choice(ALL) if k < 0.9 else r.choice(list(FAMILY))
    return [amount(r), u]


def cases(r):
    while True:
        x = length(r)
        ops = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            op = r.choice(OPS)
            form = r.choice(["length", "length", "text"])
            y = length(r, x[1])
            if op in ("*", "*="):
                form, y = r.choice([("number", [gen.number(r, "tame"), ""]), ("number", [r.randint(-5, 5), ""]), ("length", [amount(r), "%"]), ("text", [amount(r), "%"])])
                if r.random() < 0.3:
                    form, y = r.choice(["length", "text"]), length(r)
                    if y[1] != "%" and x[1] != "%" and FAMILY.get(y[1], y[1]) == FAMILY.get(x[1], x[1]):
                        y[1] = "%"
            elif op == "/" and r.random() < 0.4:
                form, y = "number", [r.choice([2, -4, 0.5, gen.positive(r, "tame")]), ""]
            elif op in ("+", "-", "r+", "r-", "cmp") and FAMILY.get(x[1]) == "px" and r.random() < 0.2:
                form, y = "number", [amount(r), ""]
            if op == "cmp" and r.random() < 0.35:
                # the same value in another spelling
                y = {"pc": [x[0] * 16, r.choice(["px", ""])], "cm": [x[0] * 10, "mm"]}.get(x[1], list(x))
                if x[1] in ("", "px"):
                    y = [x[0] / 16, "pc"] if r.random() < 0.5 else [x[0], r.choice(["px", ""])]
                form = r.choice(["length", "text"])
            ops.append([op, form, y])
        ctx = {}
        full = r.random()
        for k in ("ppi", "font_size", "font_height"):
            if r.random() < 0.3 + full:
                ctx[k] = r.choice([96, gen.positive(r, "tame"), gen.positive(r, "tame"), 0 if k != "ppi" else 300])
        if r.random() < 0.3 + full:
            ctx["vw"], ctx["vh"] = gen.positive(r, "tame"), gen.positive(r, "tame")
        rel = None
        if r.random() < 0.3 + full:
            rel = ["number", [0, ""]] if r.random() < 0.05 else [r.choice(["number", "number", "text", "length"]), [gen.positive(r, "tame"), r.choice(["", "px", "pt", "pc", "in", "cm", "mm", "em", "vw"])]]
        yield dict(x=x, how=r.choice(["text", "text", "pair", "copy", "number", "length"]), fancy=gen.spell_number(r, x[0], 1), ops=ops, ctx=ctx, rel=rel)


def family(l):
    """Two nonzero lengths can be combined when their families are equal."""
    return FAMILY.get(l[1], l[1])


def base(l):
    """(value, tolerance) in the family's base unit."""
    a, u = l
    if FAMILY.get(u) == "px":
        v = a * units.PX[u]
    elif FAMILY.get(u) == "in":
        v = a * units.INCH[u]
    else:
        v = a
    return v, abs(v) * units.REL.get(u, 1e-12)


def snap(l):
    return (l.amount, l.units)


def make(spec, form):
    from svgio.basic import Length

    a, u = spec
    if form == "length":
        return Length(a, u)
    if form == "text":
        return repr(a) + u
    return a


def run(c, mon):
    import copy

    from svgio.basic import Length, Viewbox

    a, u = c["x"]
    if c["how"] == "text":
        x = Length(c["fancy"] + u)
    elif c["how"] == "number" and u in ("", "px"):
        x = Length(a)
    elif c["how"] == "copy":
        src = Length(a, u)
        x = copy.copy(src)
        src.amount, src.units = 99.0, "q"
    elif c["how"] == "length":
        x = Length(Length(repr(a) + u))
    else:
        x = Length(a, u)
    near = lambda v, w, t: abs(v - w) <= t + 1e-12 * (abs(w) + 1e-3)
    # parsed as written
    mon.check(near(x.amount, a, 1e-12) and FAMILY.get(x.units, x.units) == FAMILY.get(u, u) and (u in ("", "px") or x.units == u), "construct:" + c["how"], lambda: "%r from %r %r" % (snap(x), c["how"], c["x"]))
    cur = [x.amount, x.units]  # the reference continues from what was read
    resolve(x, cur, c, mon)
    val, tol = base(cur)
    plain(x, cur, val, tol, mon)
    for op, form, y in c["ops"]:
        if abs(val) > 1e12:
            break
        fam = family(cur)
        before = snap(x)
        yo = make(y, form)
        ys = snap(yo) if form == "length" else yo
        zero_x, zero_y = cur[0] == 0, y[0] == 0
        fits = fam == family(y) or zero_x or zero_y
        desc = lambda: "%r %s %r" % (before, op, y)
        mon.feat("op:%s:%s:%s" % (op, form, "same" if cur[1] == y[1] else "conv" if fam == family(y) else "mixed"))
        if cur[1] != y[1]:
            mon.nontrivial()
        inplace = op in ("+=", "-=", "*=")
        res = None
        try:
            if op == "+":
                res = x + yo
            elif op == "-":
                res = x - yo
            elif op == "r+":
                res = yo + x
            elif op == "r-":
                res = yo - x
            elif op == "neg":
                res = -x
            elif op == "abs":
                res = abs(x)
            elif op == "copy":
                res = copy.copy(x)
            elif op == "/":
                if zero_y and not (zero_x and form != "number"):
                    continue
                res = x / yo
            elif op == "*":
                res = x * yo if len(c["ops"]) % 2 else yo * x
            elif op == "cmp":
                compare(x, yo, cur, y, fits, zero_x, zero_y, mon, desc)
                mon.check(snap(x) == before, "compare-mutates", desc)
                continue
            else:
                res = x
                if op == "+=":
                    res += yo
                elif op == "-=":
                    res -= yo
                else:
                    res *= yo
        except ValueError:
            if op in ("*", "*="):
                fits = form == "number" or "%" in (cur[1], y[1]) or (fam == family(y) and snap(x)[1] == y[1])
            mon.check(not fits and op in ("*", "*=", "+", "-", "r+", "r-", "/", "+=", "-="), "refused", lambda: desc() + " raised ValueError")
            mon.check(snap(x) == before and (form != "length" or snap(yo) == ys), "refused-mutates", desc)
            mon.ev("refused")
            continue
        if op in ("+", "-", "r+", "r-", "/", "+=", "-=") and not (op == "/" and (form == "number" or zero_x)):
            mon.check(fits, "not-refused", lambda: "%s gave %r" % (desc(), res))
        if op in ("*", "*=") and form != "number" and not zero_x and not zero_y:
            mon.check("%" in (cur[1], y[1]) or fam == family(y), "not-refused", lambda: "%s gave %r" % (desc(), res))
        if form == "length":
            mon.check(snap(yo) == ys and yo is not res, "other-operand", lambda: "%s changed it to %r" % (desc(), snap(yo)))
        if not inplace:
            mon.check(snap(x) == before and res is not x, "operand", lambda: "%s changed it to %r" % (desc(), snap(x)))
        vy, ty = base(y)
        if op in ("+", "+=", "r+"):
            want, t = val + vy, tol + ty
        elif op in ("-", "-="):
            want, t = val - vy, tol + ty
        elif op == "r-":
            want, t = vy - val, tol + ty
        elif op == "neg":
            want, t = -val, tol
        elif op == "abs":
            want, t = abs(val), tol
        elif op == "copy":
            want, t = val, tol
        elif op == "/":
            if form == "number":
                want, t = val / y[0], tol / abs(y[0])
            elif zero_x:
                mon.check(float(res) == 0.0, "ratio-of-zero", lambda: "%s gave %r" % (desc(), res))
                continue
            else:
                want = val / vy
                t = abs(want) * 4e-5 if cur[1] != y[1] else abs(want) * 1e-12
                mon.check(isinstance(res, float) and near(res, want, t), "ratio", lambda: "%s gave %r, expected %r" % (desc(), res, want))
                mon.ev("ratio")
                continue
        else:
            if form == "number":
                want, t = val * y[0], tol * abs(y[0])
            elif zero_x or zero_y:
                mon.check((res.amount if isinstance(res, Length) else res) == 0.0, "product-of-zero", lambda: "%s gave %r" % (desc(), res))
                if inplace:
                    return
                continue
            elif cur[1] == "%" and y[1] == "%":
                return  # percent of percent: unclaimed
            elif cur[1] == "%":
                want, t, fam = vy * cur[0] / 100.0, ty * abs(cur[0]) / 100.0, family(y)
            elif y[1] != "%":
                return  # two lengths of one family multiplied, as results may be: unclaimed
            else:
                want, t = val * y[0] / 100.0, tol * abs(y[0]) / 100.0
        t += 4e-5 * (abs(val) + abs(vy)) * (1 if op in ("+", "-", "+=", "-=", "r+", "r-") and cur[1] != y[1] else 0)
        mon.check(isinstance(res, Length), "type", lambda: "%s gave %r" % (desc(), res))
        rv, rt = base([res.amount, res.units])
        expect_fam = fam if not (zero_x and op in ("+", "-", "+=", "-=", "r+", "r-")) and not (zero_y and op in ("r+", "r-")) else None
        mon.check(expect_fam is None or want == 0 or family([res.amount, res.units]) == expect_fam, "unit", lambda: "%s gave %r" % (desc(), snap(res)))
        mon.check(near(rv, want, t + rt), "value:" + op, lambda: "%s gave %r (%r), expected %r" % (desc(), snap(res), rv, want))
        mon.ev("result")
        if inplace:
            mon.check(res is x, "inplace-identity", desc)
            cur = [x.amount, x.units]
            val, tol = base(cur)
        elif op != "copy" and abs(want) < 1e9:
            # continue from the result; the operand stays as it was
            keep, ks = x, before
            x, cur = res, [res.amount, res.units]
            val, tol = base(cur)
            x2 = copy.copy(x)
            x2 *= 2
            mon.check(snap(keep) == ks and snap(x) == tuple(cur), "result-shares", desc)
        else:
            res *= 3
            mon.check(snap(x) == before, "copy-shares", desc)
    mon.state(u, [o[0] + o[2][1] for o in c["ops"]])


def plain(x, cur, val, tol, mon):
    """The direct conversions, and comparison with plain numbers."""
    fam = FAMILY.get(cur[1])
    for name, f in (("px", "in_pixels"), ("in", "in_inches")):
        got = getattr(x, f)()
        if fam == name:
            mon.check(got is not None and abs(got - val) <= tol + 1e-12 * abs(val), f, lambda: "%s of %r is %r, expected %r" % (f, snap(x), got, val))
        else:
            mon.check(got is None, f, lambda: "%s of %r is %r" % (f, snap(x), got))
    mon.check(x.value_in_units == cur[0], "value_in_units")
    for n in (0, 0.0, 1, 5, -2.5, cur[0], cur[0] + 1, val + 7):
        if fam == "px":
            if abs(n - val) > tol + 1e-9:
                mon.check(not (x == n) and x != n, "number-equal", lambda: "%r equals %r" % (snap(x), n))
            elif n == val and cur[1] in ("", "px"):
                mon.check(x == n and not (x != n), "number-different", lambda: "%r differs from %r" % (snap(x), n))
        elif n != 0 or cur[0] != 0:
            mon.check(not (x == n) and x != n, "number-equal", lambda: "%r equals %r" % (snap(x), n))
    mon.ev("plain")


def compare(x, yo, cur, y, fits, zero_x, zero_y, mon, desc):
    (vx, _), (vy, _) = base(cur), base(y)
    eq, ne = x == yo, x != yo
    mon.check(eq is not None and bool(eq) != bool(ne), "eq-ne", desc)
    if not isinstance(yo, str):
        mon.check(bool(yo == x) == bool(eq), "eq-symmetric", desc)
    gap = 1e-4 * (abs(vx) + abs(vy))
    convertible = family(cur) == family(y)
    if convertible and abs(vx - vy) > gap + 1e-9:
        mon.check(not eq, "equal-but-different", lambda: "%s: reported equal" % desc())
    elif convertible and vx == vy and abs(vx) < 1000 and (cur[1] == y[1] or {cur[1], y[1]} <= {"", "px", "pc"}):
        mon.check(eq, "different-but-equal", lambda: "%s: reported different" % desc())
    elif convertible and {cur[1], y[1]} == {"cm", "mm"} and abs(vx - vy) < 1e-14 * abs(vx) and abs(vx) < 100:
        mon.check(eq, "different-but-equal", lambda: "%s: reported different" % desc())
    elif not convertible and not (zero_x and zero_y):
        mon.check(not eq, "equal-but-unrelated", lambda: "%s: reported equal" % desc())
    mon.check(x == x and not (x == None), "eq-self", desc)  # noqa: E711
    mon.ev("equality")
    if not fits:
        for f in (lambda: x < yo, lambda: x <= yo, lambda: x > yo, lambda: x >= yo):
            try:
                f()
            except ValueError:
                continue
            mon.fail("order-not-refused", desc())
        return
    if abs(vx - vy) > gap + 1e-9:
        lt = vx < vy
        got = [x < yo, x <= yo, x > yo, x >= yo]
        mon.check(got == [lt, lt, not lt, not lt], "order", lambda: "%s: <, <=, >, >= are %r" % (desc(), got))
        mon.ev("order")
    elif cur[1] == y[1] and cur[0] == y[0]:
        got = [x < yo, x <= yo, x > yo, x >= yo]
        mon.check(got == [False, True, False, True], "order-equal", lambda: "%s: <, <=, >, >= are %r" % (desc(), got))


def resolve(x, cur, c, mon):
    from svgio.basic import Length, Viewbox

    ctx = dict(c["ctx"])
    k = {n: v for n, v in ctx.items() if n not in ("vw", "vh")}
    if "vw" in ctx:
        o = [(0, 0), (10, -20), (0.5, 0), (-300, 1e3)][(len(c["ops"]) + int(cur[0])) % 4]
        k["viewbox"] = "%r %r %r %r" % (o + (ctx["vw"], ctx["vh"]))
        if len(c["ops"]) % 2:
            k["viewbox"] = Viewbox(k["viewbox"])
    a, u = cur
    before = snap(x)
    rel = None
    if c["rel"]:
        form, ry = c["rel"]
        if form == "number":
            rel = ctx["relative_length"] = k["relative_length"] = ry[0]
        else:
            k["relative_length"] = make(ry, form)
            w = units.pixels(ry[0], ry[1], ctx)
            rel = "unresolved" if w is None else w
            if w is not None:
                ctx["relative_length"] = w[0]
    desc = lambda: "%r.value(**%r)" % (before, k)
    if u == "%" and rel == "unresolved":
        got = x.value(**k)
        if a:
            mon.check(isinstance(got, Length), "value-unresolved", lambda: "%s is %r" % (desc(), got))
            # a fraction of the reference, resolvable later
            w = units.pixels(a / 100.0 * c["rel"][1][0], c["rel"][1][1], {"ppi": 96, "font_size": 10, "vw": 300, "vh": 200})
            late = got.value(ppi=96, font_size=10, viewbox="0 0 300 200")
            mon.check(abs(late - w[0]) <= w[1] + 1e-12 * abs(w[0]), "value-late", lambda: "%s then %r, expected %r" % (desc(), late, w))
        mon.check(snap(x) == before, "value-mutates", desc)
        return
    want = units.pixels(a, u, ctx)
    got = x.value(**k)
    if want is None:
        mon.check(isinstance(got, Length) and snap(got) == before, "value-unresolved", lambda: "%s is %r" % (desc(), got))
        mon.ev("unresolved")
    else:
        t = want[1] + 1e-12 * abs(want[0]) + (3e-5 * abs(want[0]) if isinstance(rel, tuple) else 0)
        mon.check(not isinstance(got, Length) and abs(got - want[0]) <= t, "value", lambda: "%s is %r, expected %r" % (desc(), got, want[0]))
        mon.ev("resolved")
        mon.feat("value:" + u)
        ppi = k.get("ppi", 96)
        if FAMILY.get(u) == "in" and "ppi" not in k:
            pass
        p = dict(k)
        if "ppi" in k or FAMILY.get(u) != "in":
            for name, unit, rat in (("to_mm", "mm", units.INCH["mm"]), ("to_cm", "cm", units.INCH["cm"]), ("to_inch", "in", 1.0)):
                q = getattr(x, name)(**p)
                w = want[0] / (ppi * rat)
                mon.check(q.units == unit and abs(q.amount - w) <= (t / abs(want[0]) if want[0] else 0) * abs(w) + 2e-6 * abs(w) + 2e-12, name, lambda: "%s, %s is %r, expected %r" % (desc(), name, q, w))
                back = q.value(ppi=ppi)
                mon.check(abs(back - got) <= 1e-11 * ppi + 1e-11 * abs(got), name + "-back", lambda: "%s, %s is %r, back %r" % (desc(), name, q, back))
            mon.ev("to-unit")
    mon.check(snap(x) == before, "value-mutates", desc)
