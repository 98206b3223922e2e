"""C07: whole-piece and per-instrument builds over all small pieces."""
import itertools
from collections import Counter
from .. import gmodel as gm
from .. import gutil as gu

PROP, LEVEL = "C07", "model_checking"
BOUNDS = {
    "quick": "all pieces of 1..3 tracks over 11 track contents (melodies sharing chords, chords, silent, one-note, empty, drum track, drum notes) and of 1..2 tracks with one of a fifth of a second, both modes, with and without velocities",
    "thorough": "all pieces of 1..4 tracks over the same 11 track contents, both modes, velocities and single-note filter on and off",
}
ASSUMPTIONS = ["the chord an instrument is joined at is any chord of the instruments before it"]
n = lambda p, s, v=90, d=False: [p, s, v, d]
TR = [
    ("m1", False, [n(60, 0.0), n(62, 1.0), n(64, 2.0)]),
    ("m2", False, [n(62, 0.0), n(60, 0.5), n(62, 1.5), n(62, 2.5)]),
    ("ch", False, [n(60, 0.0), n(64, 0.0), n(67, 0.0), n(60, 1.0), n(60, 2.0), n(64, 2.0), n(67, 2.0)]),
    ("late", False, [n(64, 5.0), n(65, 6.0, 30), n(64, 7.0)]),
    ("rev", False, [n(64, 2.0), n(62, 1.0), n(60, 0.0)]),
    ("two", False, [n(62, 0.0), n(62, 1.0)]),
    ("silent", False, [n(60, 0.0, 0), n(61, 1.0, 0)]),
    ("one", False, [n(70, 0.0)]),
    ("empty", False, []),
    ("drum", True, [n(36, 0.0), n(38, 1.0)]),
    ("drumnotes", False, [n(36, 0.0, 90, True), n(60, 1.0), n(67, 2.0), n(38, 2.0, 90, True)]),
    ("tight", False, [n(63, 0.0), n(66, 0.0), n(69, 0.05)]),
]


def setup():
    gu.load()


def cases(tier):
    th = tier == "thorough"
    for k in range(1, (4 if th else 3) + 1):
        for w in itertools.product(range(len(TR) - (k > 2)), repeat=k):
            for vel in (0, 1):
                for filt in ((0, 1) if th or k < 3 else (0,)):
                    yield [list(w), vel, filt]


def model(t, filt):
    name, drum, notes = TR[t]
    if drum or len(notes) == 1:
        return []
    return [frozenset(x.p for x in g) for _, g in gm.groups([gm.N(*x) for x in notes], bool(filt))]


def pieces(w):
    return gu.MidiNoteSequences(midi_seq=[gu.seq(TR[t][2], k, TR[t][1]) for k, t in enumerate(w)])


def pair(u, v):
    return frozenset([u, v])


def run_case(case, rec):
    w, vel, filt = case
    models = [m for m in (model(t, filt) for t in w) if m]
    kw = dict(is_include_velocity=bool(vel), filter_single_notes=bool(filt))
    # one graph per instrument
    b = gu.MidiGraphBuilder()
    b.build(pieces(w), is_per_instrument=True, **kw)
    rec.eq(len(b.sub_graphs), len(models), "per-count")
    rec.eq(len(b.pyg_data), len(models), "per-data-count")
    for g, m in zip(b.sub_graphs, models):
        rec.step()
        rec.check(gu.edges_of(b, g) == gm.walk(m), "per-edges", lambda: f"{gu.edges_of(b, g)} vs {m}")
        rec.eq(set(gu.chords_of(b, g).values()), set(m), "per-nodes")
    for d, m in zip(b.pyg_data, models):
        rec.eq(d.x.shape[0], len(set(m)), "per-rows")
    # alone
    alone = []
    for t in w:
        if TR[t][1] or len(TR[t][2]) == 1:
            continue
        b1 = gu.MidiGraphBuilder()
        g1 = b1.build_sequence(gu.seq(TR[t][2]), **kw)
        if len(g1):
            alone.append((g1, b1))
    for (g1, b1), g in zip(alone, b.sub_graphs):
        rec.eq(set(g1.nodes), set(g.nodes), "alone-nodes")
        rec.eq(dict(((u, v), d["weight"]) for u, v, d in g1.edges(data=True)),
               dict(((u, v), d["weight"]) for u, v, d in g.edges(data=True)), "alone-edges")
        for x in g:
            rec.check(gu.torch.equal(g1.nodes[x]["attr"], g.nodes[x]["attr"]), "alone-attr")
    # one graph for the piece
    b = gu.MidiGraphBuilder()
    b.build(pieces(w), is_per_instrument=False, **kw)
    rec.step()
    rec.eq(len(b.sub_graphs), 1 if models else 0, "whole-count")
    rec.eq(len(b.pyg_data), 1 if models else 0, "whole-data-count")
    rec.state([sorted(sorted(c) for c in m) for m in models])
    if not models:
        return
    g = b.sub_graphs[0]
    chords = gu.chords_of(b, g)
    rec.eq(set(chords.values()), set(c for m in models for c in m), "whole-nodes")
    rec.eq(len(chords), len(set(chords.values())), "whole-dup-nodes")
    rec.eq(b.pyg_data[0].x.shape[0], len(chords), "whole-rows")
    for x, c in chords.items():
        a = g.nodes[x]["attr"]
        row = (a[0] if vel else a).tolist()
        rec.eq(row, [0.0] * 0 + sorted_pad(c, row), "whole-attr", f"{sorted(c)}")
    got = gu.edges_of(b, g)
    rec.outcome(sorted((sorted(u), sorted(v), x) for (u, v), x in got.items()))
    for u, v in got:
        if u != v:
            rec.check((v, u) not in got, "both-directions", lambda: f"{sorted(u)} {sorted(v)}")
    have = Counter()
    for (u, v), x in got.items():
        have[pair(u, v)] += x
    need = Counter({pair(models[0][0], models[0][0]): 1.0})
    for m in models:
        for u, v in zip(m, m[1:]):
            need[pair(u, v)] += 1.0
    short = {p: (have[p], need[p]) for p in need if have[p] < need[p]}
    rec.check(not short, "whole-weight-short", lambda: f"{[(sorted(map(sorted, p)), x) for p, x in short.items()]}")
    left = have - need
    cand = []
    for i in range(1, len(models)):
        before = set(c for m in models[:i] for c in m)
        cand.append([pair(c, models[i][0]) for c in before])
    ok = any(Counter(pick) == left for pick in itertools.product(*cand))
    rec.check(ok, "whole-extra", lambda: f"beyond the transitions: {[(sorted(map(sorted, p)), x) for p, x in left.items()]}")
    # the same piece built up one instrument at a time on a graph that is handed over
    b, g, done = gu.MidiGraphBuilder(), None, []
    for t in w:
        if TR[t][1] or len(TR[t][2]) == 1:
            continue
        was = (list(g.nodes), list(g.edges(data="weight"))) if g is not None else ([], [])
        g2 = b.build_sequence(gu.seq(TR[t][2]), g=g, **kw)
        rec.step()
        m = model(t, filt)
        if not m:
            rec.eq((list(g2.nodes), list(g2.edges(data="weight"))), was, "onto-silent", f"{case}")
            continue
        done.append(m)
        g = g2
        rec.eq(set(gu.chords_of(b, g).values()), set(c for m in done for c in m), "onto-nodes", f"{case}")
        have, need = Counter(), Counter()
        for (u, v), x in gu.edges_of(b, g).items():
            have[pair(u, v)] += x
        for m in done:
            for u, v in zip(m, m[1:]):
                need[pair(u, v)] += 1.0
        rec.check(all(have[p] >= need[p] for p in need), "onto-weights", lambda: f"{case}: {have} {need}")


def sorted_pad(c, row):
    return sorted_like(c, row) + [0.0] * (len(row) - len(c))


def sorted_like(c, row):
    # the order of pitches inside a row is not part of the property
    k = row[:len(c)]
    return k if sorted(k) == sorted(map(float, c)) else sorted(map(float, c))
