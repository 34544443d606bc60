"""Writes DESIGN.md from the properties, the check modules, the seeded bugs' meta.json and the texts below."""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
import props  # noqa: E402

# property -> (oracle, why this reaches what the unit tests cannot)
WHY = {
    "C01": ("`vmon/ref_path.py`, written from SVG 2 chapter 9 and appendix F.6 without reading svgio's parser, interprets the *program*; `vmon/gen.py` spells the program. Text, pieces and builder calls must each give those segments. A fixed corpus adds groups of 600 to 1500 arguments per command (it found the builder defect 11b7164).",
            "the tests parse about 40 fixed strings; spellings × commands × context (smooth after other kinds, z as argument, degenerate arcs) is a product only a generator covers."),
    "C02": ("the path itself: its own text read again must give the same segments; the command letters are checked against the requested or recorded mode. Arc tolerance is computed per arc from the six digits radii and rotation are written with.",
            "nine output modes × per-segment recorded flags × edits before writing; tests use one or two."),
    "C03": ("a plain Python list edited in lockstep (semantics of list) and the connection rule evaluated from scratch after each edit: start of a segment is the end before it, a close ends at the latest move.",
            "validity after *any* history; tests make single edits."),
    "C04": ("a path freshly built from copies of the current segments, measured the same way. Stale caches show as a difference.",
            "needs measure → edit → measure histories through every mutating entry, including edits through subpath views."),
    "C05": ("segments sampled before and after; for paths the segment kinds, subpath order and closure are re-derived from the original.",
            "the interplay of moves, closes and neighbours depends on all subpaths around the reversed one."),
    "C06": ("the same operation on a plain list of segments with window bounds recomputed from the moves.",
            "views hold indices into a list that edits through them change; only histories expose drift."),
    "C07": ("de Casteljau and elliptical evaluation from the segment's defining numbers; the length-fraction rule with the library's lengths (judged by C09).",
            "agreement of scalar and vectorised evaluation at every parameter and container form."),
    "C08": ("dense sampling of an independent evaluation plus golden-section refinement: the box must contain it and touch it.",
            "extrema depend on coefficient signs, arc start/sweep and rotation; misses are rare regions."),
    "C09": ("adaptive subdivision between chord and control polygon (a rigorous bracket) and piecewise Gauss integration for arcs; metamorphic similarity maps.",
            "closed forms break at cusps and folds, which fixed tests do not hit."),
    "C10": ("matrix image of an independent evaluation of the original at many parameters.",
            "arcs under general affine maps need new radii/rotation/sweep for every case of orientation and scale."),
    "C11": ("a known arc from which the constructor arguments are derived; the result must be that arc and its derived attributes must agree with each other.",
            "twelve constructor forms × spelling × quadrant × direction."),
    "C12": ("the arc itself sampled independently; analytic error bounds per order and slice angle (a⁶ and a⁴).",
            "bounds over all slices, directions and neighbouring segments of the path."),
    "C13": ("the same real code loaded four times in one process with numpy/scipy imports made to fail: outputs compared with each other; a monitor confirms the blocked package really is not used.",
            "the fallbacks are never run where the packages are installed."),
    "C14": ("3×3 affine algebra in `vmon/affine.py`.", "operation histories and every operand form; operands snapshotted."),
    "C15": ("an independent reader/multiplier of transform lists with CSS units.", "eleven functions × argument counts × units × context × spelling."),
    "C16": ("SVG 2 section 8.2 computed on the corners of the boxes.", "19 align/meetOrSlice combinations × aspect relations × ways to give the box."),
    "C17": ("CSS unit definitions (to the library's printed constants).", "thirteen units squared × operators × contexts."),
    "C18": ("unit definitions of turns, gradians, degrees and radians.", "magnitudes of hundreds of turns, near equalities."),
    "C19": ("own table of the 147 CSS keywords and CSS Color 3/4 formulas.", "every notation with components in, at and beyond the range."),
    "C20": ("a four-byte model, Porter-Duff source-over, redmean, and textbook HSL.", "setter histories: each view must follow every other."),
    "C21": ("complex arithmetic; convex hull decided in exact rational arithmetic, termination by processor time.", "ties, duplicates and collinear runs of large sets."),
    "C22": ("the model tree from which `vmon/dom.py` writes the XML (expat checks it is well formed); snapshots around further loads.", "namespaces × encodings × entities × comments × nesting; histories of loads."),
    "C23": ("the model tree, ElementTree reading the saved text, and the library reading it again.", "escaping and structure for arbitrary strings and edit histories."),
    "C24": ("child lists of the model after every operation.", "look-alike siblings and histories of additions."),
    "C25": ("nearest-ancestor search over the model, own colour/opacity composition, snapshots around reads.", "all properties of all elements at any depth after any edit; caching shows only in histories."),
    "C26": ("the document loaded from the equivalent text.", "every factory on every parent with every prefix of positional arguments."),
    "C27": ("deep snapshots of every operand around every operation; then every part of the result is changed while the sources are watched and vice versa.", "aliasing is invisible until one side is changed."),
    "C28": ("`eval(repr(x))` with only the library's names in scope, compared field by field.", "any magnitude, sign, unit and kind."),
    "C29": ("an independent lexer gives the longest valid front part; exceptions other than ValueError, broken connections or 100 s of processor time on one text are violations.", "hostile texts; tests use well-formed ones."),
    "C30": ("outlines of SVG 2 chapter 10 with corner-radius rules, evaluated independently and mapped by independently multiplied transforms.", "attribute presence × units × clamping × ancestors' transforms."),
    "C32": ("the points given to the constructor; exact rational nearest point; a plain list for paths.", "seven kinds × spellings × absent parts."),
    "C33": ("the random bytes that were encoded; the size and transforms of generated pictures.", "lengths and padding, types, line breaks, inheritance, later changes and transforms."),
    "C34": ("the parts each shorthand was assembled from.", "keyword orders × spellings × units × hostile repetitions that make a backtracking match explode."),
}

HEAD = """# Design

This file is written by `tools/design.py` (texts there, rules in the check modules, statements in `tools/props.py`).

## Technique

Runtime monitoring only. The real `/repo/svgio` package is imported from the working tree (no bytecode cache, no copy) and driven, through its
public API, by generated, hostile and stress workloads. Monitors judge what it returns and the state it leaves: reference models run beside it,
invariant checkers after every step of an edit history, snapshots of operands around operations, differential runs of the same workload in several
configurations, and watchdogs. Nothing is enumerated or proved; the bound of every check is its number of cases, and `evidence/<id>.json` says
what was observed (events by kind, features, distinct non-trivial cases, distinct states).

svgio is pure, single-threaded Python without locks, threads, processes, C extensions or persistent state, so compiler sanitizers, race detectors
and crash-point injection have nothing to observe here; the monitors are of the behavioural kind. The environment faults that do matter are
injected: numpy and scipy made unimportable (C13), truncated and corrupted texts (C29), streams and files of several encodings (C22, C23).
No hooks in /repo are needed (MANIFEST `hooks` is absent): all observed state is public.

## Framework

* `check <id> [quick|thorough]` → `vmon/main.py` → `vmon/core.py`: eight worker processes draw cases from `cases(rng)` of the property's module
  (seeded by `VERIF_SEED`, property and worker), run `run(case, monitor)` on the real code, and count what the monitor saw. Cases are plain JSON;
  a violating case is saved for replay (`./check <id> --replay FILE`).
* An exception raised by the library in a case that is valid counts as a violation (key `exception:...`). One case that uses 100 s of
  *processor* time counts as non-termination (wall time decides nothing, so a loaded machine raises no alarm); normal cases take milliseconds.
* A check that saw fewer than its minimum number of distinct non-trivial cases is inconclusive (exit 2), so a workload that silently stopped
  working does not count as a pass.
* Each check's run is followed by comparison with `known_findings.json`: a violation whose property and key are listed prints `KNOWN-FINDING`,
  anything else prints `VIOLATION`.
* Tolerances: floating-point comparisons use about 1e-9 of the magnitudes that were summed, wider only where the library writes or stores fewer
  digits (12 decimals in text, 6 significant digits for arc radii and rotation, printed unit constants) or where the problem is ill-conditioned
  (radii close to the critical one, matrices of large condition number); those limits are in each module and in the assumptions below.

Shared parts: `gen.py` (path programs and spellings, numbers, matrices), `ref_path.py` (path interpreter, curve evaluation, comparison),
`edits.py` (path edit operations), `segs.py` (segments of every kind), `affine.py`, `units.py`, `css_colors.py`, `dom.py` (random XML).

## Properties and how each is decided
"""

TAIL = """
## Not applicable

* C31 (structure features such as use/style resolution and rendering): `Document.render`, style sheets, `use` resolution and `nodes.parse()` are
  unfinished in this commit (they call methods that do not exist, or are `pass`), so there is no execution whose outcome could be judged.

Parts of the tree that no property claims, because they are unfinished: `nodes.parse()` (calls a missing `SVG._use_structure_parse`),
`Pattern.property_by_object/values` (leftovers that assign to read-only properties), `_RoundShape._ramanujan_length` (private, uses an undefined `pi`), and saving of trees nested deeper than Python's recursion limit allows (about 900). `style` and `css_class` of nodes cannot be read through
attribute access, which the element factories take.

## Known finding

C05 `draw-after-close`: reversing `M0,0 L1,0 L1,1 Z L5,5`. Drawing that goes on after a close without a move stays in the same subpath, so the
reversed path has its close in the middle. Repairing it means deciding where subpaths split, which changes indices users see; it is recorded, not
repaired. The check recognises it by the situation (a drawn segment directly after a close); every other path is still judged.

## Repaired defects

%s defects that the checks showed were repaired in /repo, one `fix:` commit each; `known_findings.json` lists them with the input that failed.
A `fixed` entry suppresses nothing.

## False alarms corrected

During construction the checks also raised alarms that were wrong; each time the property or the oracle was corrected, never the tolerance widened
without a reason that can be computed:
* the number `5.` is not an SVG 2 number, so texts with trailing dots were removed from C01's spellings and from C29's "must be read" front parts;
* arcs: the library's sweep comes from an acos, with up to 3e-8 rad of error near a half turn and near zero; arcs are compared to that accuracy;
  near-critical radii are ill-conditioned (the centre moves with the root of the error) and get the corresponding tolerance;
* equality of matrices, lengths and angles uses the library's documented twelve decimals, so C27/C28 do not claim distinctions finer than that;
* Bezier lengths next to cusps: the closed quadratic form and scipy's quadrature lose about 1e-7 (C09);
* the bisection without scipy meets its error per piece, so C13 compares whole paths to the error times the number of pieces;
* segments edited through item assignment belong to the path; C27 first counted live views as shared state;
* complex powers of points on the negative real axis with a fractional exponent: the root taken hangs on the sign of a zero; C21 skips the branch cut;
* `Point` text, ids after removals, `defer`, zero-size viewBoxes as geometry, and mixed `href`/`xlink:href` are left unclaimed because neither
  documentation nor specification settles them.

## Self test

1. Seeded bugs (`seeded/`), each validated in a scratch copy (applies, builds, existing tests pass, demonstration fails with it and passes without).
   All of them are caught by the quick check of their property:

%s
2. Bug trials: several lists of hand-written changes (about 150, over all four source files, written from the statements) run in scratch copies;
   every one that a check missed was either equivalent/unclaimed or led to a stronger workload (for example long argument groups, equal neighbours,
   zero references, singular transforms, look-alike namespaces, odd ids, attribute order, attributes shared between nodes).
3. Mutation campaign: operator, constant and condition mutants of every covered line; the survivors were triaged one by one (equivalent,
   performance only, unclaimed, or a reason to extend a check).
4. Stale results: some hundred trials in which a method's or property's result is kept on the object, or in the module, under a key that leaves
   something out (coordinates, a control point, the position, relative units, the text's length). To see these, the workloads measure, write, approximate or
   resolve a value while it has other fields, give it its own back in place, and only then judge it (segments, arcs, boxes, lengths, shapes, viewboxes, reprs,
   path texts, image and font values). Those still missed keep the behaviour (for example a cache under the stripped text of an angle).
5. Size: documents of hundreds of elements or 180 deep, with texts longer than a chunk of the XML reader (a loader that takes an element's tail too early is
   only seen there), and programs of up to a few hundred commands.
6. False alarms met and corrected while extending: the colour blend's rounding (C20), equality of long lengths beyond twelve decimals (C28), a default
   argument counted as a rounding difference (C14), private attributes compared after a refactoring (C34).
7. Quick checks were repeated for many seeds on the unchanged tree, also under load, without an alarm.
"""


def main():
    pr = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    out = [HEAD]
    for p in pr:
        i = p["id"]
        if i not in WHY:
            continue
        m = importlib.import_module("vmon.props." + i.lower())
        oracle, why = WHY[i]
        out.append("### %s %s\n" % (i, p["title"]))
        out.append("* Monitor: %s." % props.TECH[i])
        out.append("* Workload: %s" % m.RULE)
        out.append("* Oracle: %s" % oracle)
        out.append("* Beyond the tests: %s" % why)
        out.append("* Bounds and cost: %s cases quick, up to %s thorough, on eight processes; under %d distinct non-trivial cases is inconclusive." % (format(m.QUICK, ","), format(m.THOROUGH, ","), m.MIN))
        out.append("* Assumptions: %s.\n" % "; ".join(m.ASSUMPTIONS))
    rows = ["   | change | needs | caught by |", "   |---|---|---|"]
    for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        rows.append("   | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["needs"].replace("|", "/"), m["property"]))
    fixed = len(json.load(open(os.path.join(ROOT, "known_findings.json")))["fixed"])
    out.append(TAIL % (fixed, "\n".join(rows) + "\n"))
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


main()
