#!/opt/venv/bin/python
"""Writes /verif/DESIGN.md from the hand-written sections below, the checks' own bounds, the seeded bugs and the findings file."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = '''# Design

(Written by `tools/gen_design.py`; the per-property bounds are those stated by the checks themselves.)

## 1. What is checked and how

neural-graph-composer turns MIDI files into chord graphs for a graph network: it reads and writes MIDI
(`midi_reader`, `custom_pretty_midi`), represents notes, tracks, pieces, signatures, controllers
(`midi/`), builds graphs (`midi_graph_builder`), keeps them as datasets on disk with labels, masks and
transforms (`midi_dataset`, `transforms`), supports training (`trainer` parts: checkpoints, metrics, splits) and has
supporting containers and theory tables (`interval trees`, `SortedDict`, `midi_scales`). The properties in
`properties.jsonl` cover each of these parts, from graph building outwards.

**Family: explicit-state model checking of the implementation itself.** A check enumerates *all* histories / inputs /
random outcomes / interruption points within its stated bounds, runs every one of them on the real code imported from `/repo`,
and compares it after every step with a small reference model written from the property. There is no separate model that
could drift from the code: model and implementation are driven by the same transition word, so every explored word is also a
conformance run (`traces_validated_against_impl` in the evidence = words run on the implementation). Nothing is sampled: a check
that does not get through all of its cases fails (`exhaustive` must be true). Four shapes of exploration occur:

1. *words of operations* (C03, C05, C10, C13, C16, C19-C21, C32, C40, C41, C46, C48, C60, C61): all sequences of operations
   up to a depth, the observable state compared after each one;
2. *reachable states* (C52 label maps, C70 interval trees): breadth-first over canonical states of the real object to a
   fixed point, every operation and query in every state;
3. *environment choices* (C50, C53, C62: every outcome of the random draws; C32, C51, C60, C61: every point at which the process or
   another process may step in: before and after each file-system call, with each written file whole, half written or empty);
4. *bounded input spaces* (the rest): all inputs of a small alphabet built to force collisions (equal starts, shared
   chords, touching intervals, boundary values), in all orders.

**Machinery.** `bin/check ID [--tier quick|thorough] [--replay FILE]` runs `mc/checks/cNN.py` under `mc/core.py`. Cases are
generated deterministically, simplest first, and striped over 8 forked workers that drop to an unprivileged user in a scratch
directory which is removed afterwards. A disagreement is written to `replays/<ID>.json` and reported as `VIOLATION property=<ID>
replay=<path>`; `--replay` runs that single case again. Hangs (no result in 60 s) and memory exhaustion are disagreements too.
Known findings are suppressed by key (`known_findings.json`), everything else is still reported. `VERIF_SEED` only rotates the
distribution of cases over workers. No hooks in `/repo` are needed: the seams used are file-system calls, `torch`/`numpy` random functions and
generators, replaced from outside.

**Reference models.** `mc/gmodel.py` (groups, chords, transitions), `mc/nmodel.py` (notes), `mc/tmodel.py` (tracks), `mc/smf.py`
(a writer of MIDI files and an independent reading of tick schedules), `mc/dutil.py` (corpora, datasets on disk, interruption
injection), `mc/xutil.py` (graphs for transforms, enumeration of draws). They share no code with `/repo` beyond constructors.

**Interruption model.** File-system calls made by the code under test (open for writing, write, close, rename, mkdir, remove, torch.save,
...) are wrapped; a run first counts them, then is repeated once per call with the process "ended" at that call (an exception derived
from `BaseException` that no handler of the code catches), in the variants: before the call, after the call, with the file being written empty, or cut
in half. Afterwards a fresh run has to recover as the property says.

## 2. Per property
'''

# property -> (oracle, why the technique reaches what tests do not / remarks)
O = {
"C01": "groups of simultaneous notes recomputed from the note list by `gmodel` (window from the documented rule, exact start comparison); nodes, features and velocity rows compared as multisets",
"C02": "the walk over the model's groups; the edge dictionary with weights is predicted exactly; split chords: any split into the least number of parts is accepted",
"C03": "a dictionary chord -> index kept by the model over the whole history; the tables of the builder must agree with each other and with it after each operation",
"C04": "the adjacency, weights and labels read directly off the networkx graph; malformed graphs must be refused as they are and leave no partial result",
"C05": "a queue of built graphs; every interleaving of builds and iterator steps delivers each once, in order",
"C06": "exact rational scaling of the vector with clipping; rows are matched to the notes by identity of the pitch",
"C07": "per-instrument graphs from C01/C02's model; the whole-piece graph is their union with joins between consecutive instruments",
"C08": "set algebra on the edge set; merging predicted by redirecting edges and adding up weights",
"C09": "the graphs of a fresh builder that is given the piece directly; an own piece is the default of the reference builder too",
"C10": "an attribute record with the documented validation; a refused operation must leave every attribute unchanged",
"C11": "tuple comparison of (start, end, pitch, ...), interval arithmetic for overlap; order laws (total, transitive, consistent with equality) on all triples",
"C12": "exact rational nearest grid point, blended by strength; distance bounds and idempotence",
"C13": "a list of notes plus derived totals recomputed from scratch after each operation",
"C14": "multiset union with order by start time; insertion position by bisection",
"C15": "windows recomputed by brute force with the documented boundary rule; slices must not share notes with the source",
"C16": "two independent records (source, clone); an operation on one must not show in the other",
"C17": "note-by-note application of C12's model, controllers by the nearest grid point",
"C18": "the twelve-tone arithmetic; a recursive walk over the JSON document",
"C19": "a canonical record of everything observable, taken before and after each query; the answer of a fresh object",
"C20": "the list of additions so far, scanned for the latest at or before the moment",
"C21": "a plain dict number -> track record",
"C22": "sorted copy of the list of additions filtered by the bound",
"C30": "`smf` pairs note-ons and note-offs on the event schedule by hand (oldest first), with exact tick-to-second conversion",
"C31": "the written file is read back by the reader and compared with the piece; ticks within rounding",
"C32": "the rules of overwriting and of valid ranges written as a decision table; the directory listing before and after, and the content of files",
"C33": "piecewise linear exact tick arithmetic with fractions",
"C34": "events of the schedule by channel and program in force; signatures by tick",
"C35": "beats counted in ticks; converted once at the end",
"C36": "piano roll, histograms, onsets recomputed from the notes; the whole is the union/sum of the instruments",
"C37": "piecewise linear map applied to every event; tempo compared through ticks",
"C38": "gaps pooled by hand; candidate starts scored from the beats of C35; waveforms of the instruments summed up; notes filtered by end > start",
"C39": "an event list of the file worked out by hand (exact ticks); objects built by hand are compared with their own attributes; equality of snapshots across rounds and forms",
"C40": "a plain `dict` plus sorting of keys",
"C41": "a plain dict keyed by ends plus brute-force slicing",
"C42": "set semantics of closed intervals on a half-step lattice",
"C43": "step patterns of the standard theory, modulo 12",
"C44": "arithmetic on semitones and octaves; the inverse table must undo the table",
"C45": "the tuple (number, name, drum)",
"C46": "an attribute record, exact nearest grid step",
"C47": "the lists given, put in order by hand; snapshots of what was given before and after",
"C48": "exact fractions of microseconds; beats counted from numerator and denominator; stable sort by (time, number)",
"C50": "disjointness, coverage, sizes from the ratios, computed from the enumerated permutation",
"C51": "what an uninterrupted, freshly made dataset of the same configuration holds; after any interruption the reloaded dataset must equal it",
"C52": "labels follow from the set of chords of the corpus; label maps are dictionaries with merge = union",
"C53": "for each transform the set of permitted outcomes given the enumerated draws; the source graph must stay as it is",
"C54": "cell-by-cell reconstruction from the note intervals",
"C55": "a fresh folder per configuration: sharing one must give the same content",
"C56": "the graphs built directly from the files; counts over them; a listing of the folder before and after a refused setting",
"C57": "the graphs built directly from the files the server has; the requests the server received",
"C60": "a list of saved epochs; resuming must load the last save that completed",
"C61": "lists of values per metric and epoch; what reloads is a prefix that ends with a completed save",
"C62": "partition of the index set; removed nodes take exactly their edges, weights and labels along",
"C70": "a Python set of (begin, end, data); balance and containment invariants of the tree",
"C71": "the same operation done on the plain set by brute force",
"C72": "half-open set semantics on a half-step lattice; order laws",
}

TAIL = open(os.path.join(V, "tools", "design_tail.md")).read()


def consts(f):
    t = ast.parse(open(f).read())
    out = {"doc": ast.get_docstring(t)}
    return out


def main():
    import importlib, sys
    sys.path.insert(0, V)
    ev = {}
    tp = os.path.join(V, "tools", "timings.json")
    if os.path.exists(tp):
        ev = json.load(open(tp))
    o = [HEAD]
    for l in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(l)
        m = importlib.import_module("mc.checks." + p["id"].lower())
        o.append(f"### {p['id']} {p['title']}\n")
        o.append(f"*Enumerated (quick):* {m.BOUNDS['quick']}.  \n*Thorough:* {m.BOUNDS['thorough']}.  ")
        o.append(f"*Oracle:* {O[p['id']]}.  ")
        if m.ASSUMPTIONS:
            o.append(f"*Assumes:* {'; '.join(m.ASSUMPTIONS)}.  ")
        t = ev.get(p["id"], {})
        if t:
            o.append("*Cost:* " + ", ".join(f"{k} {v}" for k, v in t.items()) + ".  ")
        o.append(f"*Beyond the tests:* {p['why_tests_cant']}.\n")
    o.append(TAIL)
    # seeded
    o.append("## 6. Planted bugs\n\nEvery one builds, passes the stable tests, has a demonstration, and is caught by its property's quick check. "
             "*missed first* marks those that the check of the time did not report and that led to a stronger check.\n")
    missed = set("merged-node-number le-end-strict drum-flag-in-equality cc-copy-loses-steps transitions-per-group slightly-negative-start "
                 "tempo-order-coarse compound-three-skipped one-hot-of-three whole-piece-keeps-singles labels-without-velocity".split())
    mf = os.path.join(V, "tools", "missed.txt")
    if os.path.exists(mf):
        missed |= set(open(mf).read().split())
    o.append("| check | bug | what it breaks | needs | |\n|---|---|---|---|---|")
    rows = []
    for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        d = json.load(open(f))
        n = os.path.basename(os.path.dirname(f))
        rows.append((d["property"], n, d["what_it_breaks"], d["needs"]))
    for r in sorted(rows):
        short = r[1][4:] if r[1][:1] == "C" and r[1][3:4] == "-" else r[1]
        o.append("| " + " | ".join(x.replace("|", "/").replace("\n", " ") for x in r) + (" | missed first |" if short in missed or r[1] in missed else " | |"))
    kf = json.load(open(os.path.join(V, "known_findings.json")))["entries"]
    o.append("\n## 7. Findings\n\nRecorded, not repaired:\n")
    for e in kf:
        if e.get("status", "finding") == "finding":
            o.append(f"- {e['property']} `{e['key']}`: {e['what']}")
    o.append(f"\nRepaired ({sum(e.get('status') == 'fixed' for e in kf)} entries, one commit each; a commit may serve several properties):\n")
    for e in kf:
        if e.get("status") == "fixed":
            o.append("- " + e["what"].replace("fixed: property=", ""))
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")


main()
