"""C03: list edits leave the path connected and otherwise act as on a list."""
import random

from .. import edits, gen
from .. import ref_path as R

ID = "C03"
RULE = (
    "random edit histories (append/insert/extend/+=/item and slice assignment/deletion/pop/remove/clear/builder, index and slice "
    "forms incl. negative, extended, out of range) on random multi-subpath paths in lockstep with a plain-list model; after every "
    "edit each connection, close end, kind, end and control is checked. Non-trivial: at least two edits took effect; distinct by "
    "starting path and edit seed."
)
QUICK, THOROUGH = 80000, 1500000
MIN = 2000
ASSUMPTIONS = ["paths that start with a move; a segment object is used in one place only"]


def cases(r):
    while True:
        mode = gen.pick_mode(r)
        yield dict(prog=gen.program(r, mode=mode, close_rate=0.2), mode=mode, seed=r.randint(0, 1 << 40), n=r.choice([1, 2, 3, 5, 8, 12]))


def run(c, mon):
    from svgio.path import Path

    r = random.Random(c["seed"])
    p = Path(gen.plain(c["prog"]))
    model = edits.settle(edits.items_of(p))
    done = 0
    for _ in range(c["n"]):
        m = edits.random_edit(r, p, model, c["mode"], mon)
        if m is None:
            continue
        model = m
        edits.check_path(mon, p, model, "edit")
        done += 1
        mon.state(tuple(it.kind[0] for it in model))
    if done > 1:
        mon.nontrivial()
