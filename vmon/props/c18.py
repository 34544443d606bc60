"""C18: angles convert between units and compare modulo a turn."""
import copy
import math

from .. import gen, units

ID = "C18"
RULE = (
    "angles of up to some hundred turns in every unit spelling (deg, grad, rad, turn, %, bare; random letter case and number "
    "spelling) and through every constructor; all unit properties, round trips, equality against whole-turn shifts and nearby angles, "
    "normalisation, positive degrees and orthogonality are compared with the unit definitions. Non-trivial: a non-zero angle; distinct by case."
)
QUICK, THOROUGH = 1050000, 12000000
MIN = 20000
ASSUMPTIONS = ["equality is claimed for differences below 1e-12 of the turns involved and inequality above 1e-9 rad; in between is rounding"]
TAU = 2 * math.pi
PER = {"": 360.0, "deg": 360.0, "grad": 400.0, "rad": TAU, "turn": 1.0, "%": 100.0}


def cases(r):
    while True:
        u = r.choice(["", "deg", "deg", "grad", "rad", "turn", "%"])
        k = r.random()
        if k < 0.3:
            v = r.choice([-1, 1]) * r.randint(0, 16) * PER[u] / r.choice([4, 8, 12, 4])
        elif k < 0.5:
            v = r.uniform(-1.2, 1.2) * PER[u]
        elif k < 0.55:
            v = r.choice([1e-14, -1e-14, 1e-9, -1e-9, 1e-300, -1e-300])
        else:
            v = gen.number(r, "tame")
        if v == int(v):
            v = int(v)
        t = gen.spell_number(r, v, r.choice([0, 1]))
        word = u if r.random() < 0.7 else r.choice([u.upper(), u.capitalize(), u.swapcase()])
        yield dict(v=v, u=u, text=t + word, how=r.choice(["parse", "parse", "ctor", "copy"]), turns=r.choice([1, -1, 2, -3, 7, 100, -50]), off=r.choice([1e-8, -1e-6, 0.001, -0.5, math.pi, 3.0, -math.pi / 2]))


def run(c, mon):
    from svgio.basic import Angle

    v, u = c["v"], c["u"]
    want = v * units.ANGLE[u]  # radians
    if c["how"] == "ctor":
        a = {"deg": Angle.degrees, "": Angle.degrees, "grad": Angle.gradians, "rad": Angle.radians, "turn": Angle.turns, "%": lambda x: Angle.turns(x / 100.0)}[u](v)
    else:
        a = Angle.parse(c["text"])
        if c["how"] == "copy":
            a = copy.copy(a)
    desc = lambda: "%r is %r, expected %r rad" % (c["text"], a, want)
    mon.feat("unit:" + u, "how:" + c["how"])
    mon.check(isinstance(a, Angle), "type", desc)
    rel = 1e-14 * abs(want)
    mon.check(abs(float(a) - want) <= rel * 4, "value", desc)
    f = float(a)
    for name, per in (("as_degrees", 360.0), ("as_gradians", 400.0), ("as_turns", 1.0), ("as_radians", TAU)):
        got = getattr(a, name)
        mon.check(abs(float(got) - want / TAU * per) <= 4 * rel * per, name, lambda: "%s gives %r; %s" % (name, got, desc()))
    for ctor, got in ((Angle.degrees, a.as_degrees), (Angle.gradians, a.as_gradians), (Angle.turns, a.as_turns), (Angle.radians, a.as_radians)):
        b = ctor(got)
        mon.check(abs(float(b) - f) <= 1e-14 * abs(f) and (abs(f) > 700 or (b == a and not (b != a))), "round-trip", lambda: "%r; %s" % (b, desc()))
    mon.ev("conversion", 8)
    p = float(a.as_positive_degrees)
    d = want / TAU * 360.0
    t = 1e-12 * (360 + abs(d))
    off = (p - d) / 360.0
    mon.check(p >= 0 and (abs(p - d) <= t if d >= 0 else p <= 360.0 and abs(off - round(off)) * 360 <= t), "positive-degrees", lambda: "%r; %s" % (p, desc()))
    n = a.normalized()
    off = (float(n) - want) / TAU
    mon.check(0 <= float(n) <= TAU * (1 + 1e-15) and abs(off - round(off)) * TAU <= 1e-13 * (10 + abs(want)), "normalized", lambda: "%r; %s" % (float(n), desc()))
    mon.check(n == a and a == n and not (n != a), "normalized-equal", desc)
    mon.ev("normalized")
    # equality
    if abs(want) < 700:
        for s in (Angle(f + c["turns"] * TAU), Angle(f - TAU), f + TAU, Angle(f)):
            mon.check((a == s) is True and (a != s) is False, "equal-by-turns", lambda: "%r and %r; %s" % (f, float(s), desc()))
        s = Angle(f + c["off"] + c["turns"] * TAU)
        mon.check((a == s) is False and (a != s) is True and (s == a) is False, "different", lambda: "%r and %r" % (f, float(s)))
        mon.ev("equality", 5)
        q = want / (TAU / 4)
        dist = abs(q - round(q)) * TAU / 4
        if dist <= 1e-14 * abs(want):
            mon.check(bool(a.is_orthogonal()), "orthogonal", lambda: "not reported; " + desc())
            mon.ev("orthogonal")
        elif dist > 1e-9:
            mon.check(not a.is_orthogonal(), "not-orthogonal", lambda: "reported; " + desc())
            mon.ev("not-orthogonal")
    mon.check(float(a) == f, "mutated", desc)
    if want:
        mon.nontrivial()
    mon.state(u, round(want, 3))
