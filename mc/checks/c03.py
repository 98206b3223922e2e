"""C03: chord/hash/index tables over all histories of builds."""
import itertools
from .. import gmodel as gm
from .. import gutil as gu

PROP, LEVEL = "C03", "model_checking"
BOUNDS = {
    "quick": "all histories of 1..4 operations over 10 operations (5 pieces, 2 with other options, drain one, drain all, change the tables handed out); 2 pairs of chords with colliding hashes",
    "thorough": "all histories of 1..5 operations over 11 operations",
}
ASSUMPTIONS = ["pieces share chords on purpose; colliding hashes occur only in the histories made for them"]
A = [[60, 0.0, 90, False], [62, 1.0, 90, False], [64, 2.0, 90, False]]
B = [[62, 0.0, 90, False], [60, 0.5, 90, False], [64, 0.5, 90, False], [62, 1.5, 50, False]]
C = [[60, 0.0, 90, False], [64, 0.0, 90, False], [67, 0.0, 90, False], [60, 1.0, 90, False], [72, 2.0, 90, False]]
D = [[0, 0.0, 90, False], [127, 1.0, 90, False], [0, 2.0, 1, False], [127, 2.0, 90, False]]
E = [[60, 0.0, 0, False], [62, 1.0, 0, False]]          # nothing sounds
OPS = [("build", [A], {}), ("build", [B], {}), ("build", [A, C], {}), ("build", [D], {}), ("build", [E], {}),
       ("build", [B, C], dict(is_per_instrument=False)), ("build", [C], dict(feature_vec_size=2)),
       ("drain1",), ("drain",), ("tamper",), ("build", [C, D, A], dict(is_include_velocity=True))]


def setup():
    gu.load()


def cases(tier):
    th = tier == "thorough"
    k = len(OPS) if th else len(OPS) - 1
    for n in range(1, (5 if th else 4) + 1):
        for h in itertools.product(range(k), repeat=n):
            if h[0] in (7, 8, 9):
                continue
            yield list(h)
    from .c01 import COLLIDING
    for i in range(len(COLLIDING)):
        yield ["collide", *COLLIDING[i]]


_cache = {}


def piece(i):
    """the same unmodified piece object serves every history of this worker"""
    if i not in _cache:
        _cache[i] = gu.MidiNoteSequences(midi_seq=[gu.seq(t, k) for k, t in enumerate(OPS[i][1])])
    return _cache[i]


def run_case(h, rec):
    if h[0] == "collide":
        b = gu.MidiGraphBuilder()
        for c in h[1:]:
            b.build(gu.MidiNoteSequences(midi_seq=[gu.seq([[p, float(t), 90, False] for t in (0, 1) for p in c], 0)]))
            rec.step()
        n2h, h2n, h2i = b.notes_to_hash, b.hash_to_notes, b.hash_to_index
        rec.check(len(n2h) == len(h2n) == len(h2i) == 2, "hash-collision", lambda: f"chords {h[1:]}: {n2h} {h2n} {h2i}")
        return
    b = gu.MidiGraphBuilder()
    expect, old = set(), ({}, {})
    for i in h:
        op = OPS[i]
        rec.step()
        delivered = []
        if op[0] == "build":
            b.build(piece(i), **op[2])
            f = op[2].get("feature_vec_size", 12)
            for t in op[1]:
                for _, gr in gm.groups([gm.N(*n) for n in t]):
                    c = frozenset(n.p for n in gr)
                    if len(c) <= f:
                        expect.add(c)
        elif op[0] == "drain1" and expect:
            it = b.graphs()
            delivered = [g for g in itertools.islice(it, 1)]
            it.close()
        elif op[0] == "drain" and expect:
            delivered = list(b)
        elif op[0] == "tamper":
            for n in ("notes_to_hash", "hash_to_notes", "hash_to_index", "index_to_hash"):
                try:                  # a table that refuses changes is fine as well
                    t = getattr(b, n)
                    t[next(iter(t))] = -7
                    t[-9] = -8
                    t.popitem()
                    t.clear()
                except (TypeError, AttributeError, StopIteration, KeyError):
                    pass
        n2h, h2n, h2i, i2h = b.notes_to_hash, b.hash_to_notes, b.hash_to_index, b.index_to_hash
        rec.check({v: k for k, v in n2h.items()} == h2n and len(n2h) == len(h2n), "notes-hash-inverse",
                  lambda: f"{n2h} vs {h2n}")
        rec.check({v: k for k, v in h2i.items()} == i2h and len(h2i) == len(i2h), "hash-index-inverse",
                  lambda: f"{h2i} vs {i2h}")
        rec.check(set(h2n) == set(h2i), "same-chords", lambda: f"{h2n} vs {h2i}")
        rec.check(expect <= set(n2h), "chord-unknown", lambda: f"{expect - set(n2h)}")
        extra = set(n2h) - expect
        rec.check(all(any(c < f for f in (frozenset({60, 64, 67}),)) for c in extra), "chord-invented", lambda: f"{extra}")
        rec.check(all(h2i.get(k) == v for k, v in old[0].items()), "index-changed", lambda: f"{old[0]} -> {h2i}")
        rec.check(all(h2n.get(k) == v for k, v in old[1].items()), "chord-changed", lambda: f"{old[1]} -> {h2n}")
        for g in delivered:
            for y, nh, row in zip(g.y.tolist(), g.node_hash, g.x):
                rec.eq(i2h.get(y), nh, "label-decode")
                row = row[0] if row.dim() == 2 else row
                rec.eq(sorted(row.tolist())[-len(h2n[nh]):], sorted(map(float, h2n[nh])), "label-decode")
        old = (h2i, h2n)
        rec.state((sorted((sorted(h2n[k]), v) for k, v in h2i.items()), len(b.pyg_data)))
    rec.outcome(sorted((v, sorted(h2n[k])) for k, v in h2i.items()))
