"""C01: path data is interpreted as the SVG grammar and rules prescribe."""
from .. import gen
from .. import ref_path as R

ID = "C01"
RULE = (
    "random path programs (all 20 command letters, repeated argument groups, segment-completing closes, degenerate arcs) "
    "spelled in random legal ways; each is parsed in one go, appended in pieces, and issued as builder calls, and every "
    "resulting segment is compared with an independent interpreter (SVG F.6 for arcs). A case counts as non-trivial when its "
    "program has at least two commands; distinct by program and spelling."
)
QUICK, THOROUGH = 52000, 1200000
MIN = 2000
ASSUMPTIONS = ["independent reference interpreter vmon/ref_path.py", "the SVG 2 number grammar (no trailing '.')"]


def corpus():
    texts = [
        [["M", [0, 0]], ["L", ["z"]], ["Z"]],
        [["M", [1, 2], [3, 4], [5, 6]], ["z"], ["l", [1, 1]], ["z"], ["m", [1, 1], [2, 0]], ["z"]],
        [["M", [0, 0]], ["C", [0, 1, 1, 1, 1, 0]], ["T", [2, 0]], ["S", [3, 1, 3, 0]], ["Q", [4, 1, 4, 0]], ["S", [5, 1, 5, 0]], ["T", [6, 0]]],
        [["M", [10, 10]], ["a", [25, 25, -30, 0, 1, 50, -25], [25, 50, -30, 1, 0, 50, -25]], ["z"]],
        [["m", [5, 5]], ["h", [1], [2]], ["v", [-1], [3]], ["H", [0]], ["V", [0]], ["Z"], ["m", [2, 2]], ["q", [1, 1, 2, 0], [1, -1, 2, 0]], ["t", [2, 0], [2, 0]]],
    ]
    import random

    for i, p in enumerate(texts):
        for how in range(3):
            yield mk(random.Random(i * 3 + how), p)
    # long texts and long calls: every command with hundreds of argument groups
    size = {"M": 2, "L": 2, "H": 1, "V": 1, "C": 6, "S": 4, "Q": 4, "T": 2}
    for i, letter in enumerate("MmLlHhVvCcSsQqTtAa"):
        r = random.Random(letter)
        n = size.get(letter.upper())
        groups = [
            [r.randint(1, 9), r.randint(1, 9), r.randint(0, 90), r.randint(0, 1), r.randint(0, 1), k % 50 + 1, k % 7] if n is None else [r.randint(-60, 60) / 4 for _ in range(n)]
            for k in range(1500 if letter in "lHtQ" else 600)
        ]
        c = mk(r, [["M", [1, 2]], ["c", [1, 2, 3, 4, 5, 6]], [letter] + groups, ["z"], ["h", [3]]])
        c["split"] = False
        yield c


def mk(r, prog):
    cuts = []
    for i in range(1, len(prog)):
        if not (prog[i - 1][1:] and prog[i - 1][-1][-1:] == ["z"]) and r.random() < 0.4:
            cuts.append(i)
    fancy = r.choice([0, 1, 1, 1])
    pieces, a = [], 0
    for b in cuts + [len(prog)]:
        pieces.append(gen.spell(r, prog[a:b], fancy))
        a = b
    return dict(
        prog=prog, text=gen.spell(r, prog, fancy), pieces=pieces, how=r.choice(["iadd", "add", "parse"]),
        rel=[r.random() < 0.5 for _ in range(7)], split=r.random() < 0.4, chain=r.random() < 0.5,
    )


def cases(r):
    while True:
        yield mk(r, gen.program(r))


def build(Path, prog, ref, rel, split, asxy):
    """Issues the program as builder calls with absolute points."""
    p = Path()
    k = 0
    for n, item in enumerate(prog):
        L, groups = item[0].upper(), item[1:]
        flag = rel[n % len(rel)]
        if L == "Z":
            p.closed(relative=flag)
            k += 1
            continue
        calls = [[g] for g in groups] if split else [groups]
        for ci, call in enumerate(calls):
            args = []
            for g in call:
                s = ref[k]
                k += 1
                end = "z" if g[-1] == "z" else asxy(s.end)
                if L in "ML":
                    args.append(end)
                elif L == "H":
                    args.append(s.end[0] - (s.start[0] if flag else 0))
                elif L == "V":
                    args.append(s.end[1] - (s.start[1] if flag else 0))
                elif L == "C":
                    args += [asxy(s.ctrl[0]), asxy(s.ctrl[1]), end]
                elif L == "S":
                    args += [asxy(s.ctrl[1]), end]
                elif L == "Q":
                    args += [asxy(s.ctrl[0]), end]
                elif L == "T":
                    args.append(end)
                elif L == "A":
                    args += list(g[:5]) + [end]
            f = {"M": p.move if ci == 0 else p.line, "L": p.line, "H": p.horizontal, "V": p.vertical, "C": p.cubic,
                 "S": p.smooth_cubic, "Q": p.quad, "T": p.smooth_quad, "A": p.arc}[L]
            f(*args, relative=flag) if flag or rel[0] else f(*args)
    return p


def run(c, mon):
    from svgio.path import Path
    from svgio.basic import Point

    prog = c["prog"]
    ref = R.interpret(prog)
    if len(prog) > 1:
        mon.nontrivial(prog, c["text"])
    prev = ""
    for it in prog:
        mon.feat(it[0], prev + it[0], "%s*%d" % (it[0], min(3, len(it) - 1)))
        if it[1:] and it[-1][-1:] == ["z"]:
            mon.feat(it[0] + "+inline-z")
        prev = it[0]
    R.match(mon, Path(c["text"]), ref, "text")
    mon.ev("parsed-text")
    # in pieces
    p = Path(c["pieces"][0])
    for t in c["pieces"][1:]:
        if c["how"] == "iadd":
            p += t
        elif c["how"] == "add":
            p = p + t
        else:
            p.parse(t)
        mon.ev("piece-appended")
    R.match(mon, p, ref, "pieces")
    # as builder calls
    asxy = (lambda q: Point(q[0], q[1])) if c["chain"] else (lambda q: (q[0], q[1]))
    R.match(mon, build(Path, prog, ref, c["rel"], c["split"], asxy), ref, "builder")
    mon.ev("built")
    mon.state(tuple((s.kind, round(s.end[0], 2), round(s.end[1], 2)) for s in ref[-3:]))
