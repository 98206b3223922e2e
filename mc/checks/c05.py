"""C05: delivery of built graphs under all interleavings of building and iterating."""
import itertools
from .. import gmodel as gm
from .. import gutil as gu

PROP, LEVEL = "C05", "model_checking"
BOUNDS = {
    "quick": "all histories of 1..5 operations over 9 operations (4 builds, open/advance/abandon an iterator, a second iterator, drain)",
    "thorough": "all histories of 1..6 operations over 10 operations (two iterators, label and sanity options)",
}
ASSUMPTIONS = ["single-threaded use: interleavings of generator steps, not of threads"]
A = [[60, 0.0, 90, False], [62, 1.0, 90, False], [64, 2.0, 90, False], [62, 3.0, 90, False]]
B = [[62, 0.0, 90, False], [60, 0.5, 90, False], [64, 0.5, 90, False], [62, 1.5, 50, False], [62, 2.5, 50, False]]
C = [[60, 0.0, 90, False], [64, 0.0, 90, False], [67, 0.0, 90, False], [60, 1.0, 90, False]]
D = [[63, 0.0, 90, False], [66, 0.0, 90, False], [69, 0.0, 90, False]]
S = [[60, 0.0, 0, False], [62, 1.0, 0, False]]
BUILDS = [([A], True), ([A, B], True), ([B, S, D, C], True), ([A], False), ([S], True)]
#      0       1       2       3       4        5       6        7         8        9
OPS = ["b0", "b1", "b2", "b3", "open", "next", "close", "drain", "check", "next2"]


def setup():
    gu.load()


def cases(tier):
    th = tier == "thorough"
    k = len(OPS) if th else len(OPS) - 1
    for n in range(1, (6 if th else 5) + 1):
        for h in itertools.product(range(k), repeat=n):
            if h[0] > 3:
                continue
            opened = False
            ok = True
            for o in h:
                if o == 4:
                    opened = True
                elif o in (5, 6) and not opened:
                    ok = False
            if ok:
                yield list(h)


_cache = {}


def piece(i):
    if i not in _cache:
        tr, per = BUILDS[i]
        seqs = gu.MidiNoteSequences(midi_seq=[gu.seq(t, k) for k, t in enumerate(tr)])
        models = []
        for t in tr:
            ch = [frozenset(n.p for n in g) for _, g in gm.groups([gm.N(*n) for n in t])]
            if ch:
                models.append(gm.walk(ch))
        _cache[i] = (seqs, per, models)
    return _cache[i]


def decode(b, g, rec, skip=False):
    i2h, h2n = b.index_to_hash, b.hash_to_notes
    y = g.y.tolist()
    rec.check(all(v in i2h for v in y), "label-unknown", lambda: f"{y}")
    ch = [h2n[i2h[v]] for v in y]
    rec.eq(len(ch), g.x.shape[0], "label-count")
    for c, row in zip(ch, g.x.tolist()):
        rec.eq(sorted(row)[len(row) - len(c):], sorted(map(float, c)), "label-chord")
    if skip:
        rec.check(g.label is None, "skip-label", lambda: f"{g.label}")
    else:
        rec.eq([int(v) for v in g.label], y, "label-list")
    ei = g.edge_index.tolist()
    w = g.edge_attr.flatten().tolist()
    rec.eq(len(w), len(ei[0]), "edge-count")
    return {(ch[u], ch[v]): x for u, v, x in zip(ei[0], ei[1], w)}


def run_case(h, rec):
    b = gu.MidiGraphBuilder()
    queue, its, built = [], {}, False
    got_all = []
    for o in h:
        op = OPS[o]
        rec.step()
        if op[0] == "b":
            seqs, per, models = piece(o)
            b.build(seqs, is_per_instrument=per)
            queue += models
            built = True
        elif op == "open":
            its[0] = iter(b)
        elif op in ("next", "next2"):
            if op == "next2" and 1 not in its:
                its[1] = b.graphs(skip_label=True)
            k = 0 if op == "next" else 1
            if its[k] is None:
                continue
            g = next(its[k], None)
            if g is None:
                its[k] = None
                rec.check(not queue, "lost", lambda: f"{len(queue)} graphs pending but iteration ended")
            else:
                rec.check(bool(queue), "twice", "more graphs delivered than built")
                rec.check(decode(b, g, rec, k == 1) == queue.pop(0), "content", "wrong graph delivered")
        elif op == "close":
            if its.get(0) is not None:
                its[0].close()
                its[0] = None
        elif op in ("drain", "check"):
            out = list(b.graphs(is_sanity_check=op == "check"))
            rec.eq(len(out), len(queue), "drain-count")
            for g in out:
                rec.check(decode(b, g, rec) == queue.pop(0), "content", "wrong graph delivered")
        rec.eq(len(b.pyg_data), len(queue), "pending-count")
        rec.eq(len(b.sub_graphs), len(queue), "pending-graph-count")
        rec.state((len(queue), {k: v is None for k, v in its.items()}, len(b.hash_to_index)))
    out = list(b.graphs())
    rec.eq(len(out), len(queue), "final-count")
    for g in out:
        rec.check(decode(b, g, rec) == queue.pop(0), "content", "wrong graph delivered")
    rec.eq(list(b.graphs()), [], "not-empty-after")
    rec.outcome(len(out))
