"""C02: edges/weights of one instrument's graph = walk of the model's groups in time order."""
import itertools
from .. import gmodel as gm
from .. import gutil as gu

PROP, LEVEL = "C02", "model_checking"
BOUNDS = {
    "quick": "all chord words of length 1..5 over 4 chords x 5 time grids x 3 supply orders; all words of length 1..3 over 6 chords of up to five pitches x feature sizes 2, 3 x 2 supply orders (split chords); all note lists of length 2..4 over 6 kinds; every permutation of 5-note pieces; four words repeated to 600 groups",
    "thorough": "chord words of length 1..7 over 4 chords x 7 time grids x 3 supply orders; split chord words of length up to 4; note lists of length 5 over 7 kinds; every permutation of 6-note pieces; four words repeated to 1200 groups",
}
ASSUMPTIONS = ["a chord too large for the feature size may be split in any way into the least number of parts, walked one after another", "grouping rule as in C01"]
CH = [(60,), (62,), (60, 64), (67, 64, 60)]
GRIDS = [1.0, 0.3, 0.5, 7.25, 0.11, 0.77, 60.5]
KINDS = [(60, 0.0), (62, 0.5), (60, 0.75), (64, 1.5), (62, 2.25), (60, 1.5), (65, 0.1)]
PERM = [[(60, 0.0), (62, 0.5), (60, 1.25), (62, 1.75), (64, 2.3), (60, 0.5)],
        [(60, 0.1), (61, 0.2), (62, 0.3), (60, 0.4), (61, 1.5), (60, 1.6)],
        [(60, 0.0), (60, 1.5), (62, 1.5), (60, 2.25), (62, 2.25), (60, 3.1)]]

# words repeated until the piece is long
LONG = [[0], [0, 1], [0, 2, 0, 1], [2, 2, 3]]
BIG = [(60,), (62, 65), (60, 68, 76), (60, 61, 62, 63, 64), (76, 60, 68), (70, 71, 72, 73)]


def setup():
    gu.load()


def cases(tier):
    th = tier == "thorough"
    for n in range(1, (7 if th else 5) + 1):
        for w in itertools.product(range(len(CH)), repeat=n):
            for gi in range(7 if th else 5):
                for order in range(3 if n > 1 else 1):
                    yield ["word", list(w), gi, order]
    for n in range(1, (4 if th else 3) + 1):
        for w in itertools.product(range(len(BIG)), repeat=n):
            for fv in (2, 3):
                for order in range(2):
                    yield ["split", list(w), fv, order]
    for w in LONG:
        yield ["long", w, 1200 if th else 600]
    top = 5 if th else 4
    kk = 7 if th else 6
    for n in range(2, top + 1):
        for w in itertools.product(range(kk), repeat=n):
            yield ["notes", list(w)]
    for i, p in enumerate(PERM):
        for o in itertools.permutations(range(6 if th else 5)):
            yield ["perm", i, list(o)]


def splits(group, nodes, fv):
    """the ordered ways of taking a group apart into the least number of the given nodes"""
    n = -(-len(group) // fv)
    def go(rest, k):
        if not rest:
            if k == 0:
                yield []
            return
        for x in nodes:
            if k and x <= rest and len(x) <= fv:
                for more in go(rest - x, k - 1):
                    yield [x] + more
    return list(go(group, n))


def run_split(case, rec):
    _, w, fv, order = case
    notes = [[p, float(i), 90, False] for i, c in enumerate(w) for p in BIG[c]]
    b = gu.MidiGraphBuilder()
    g = b.build_sequence(gu.seq(notes[::-1] if order else notes), feature_vec_size=fv)
    rec.step(len(notes))
    got = gu.edges_of(b, g)
    chords = [frozenset(n.p for n in gr) for _, gr in gm.groups([gm.N(*n) for n in notes])]
    nodes = list({u for e in got for u in e})
    ways = [splits(c, nodes, fv) for c in chords]
    ok = any(gm.walk([x for part in pick for x in part]) == got for pick in itertools.product(*ways))
    rec.check(ok, "split-edges", lambda: f"chords {[sorted(c) for c in chords]} in parts of {fv}: no walk gives {sorted((sorted(u), sorted(v), x) for (u, v), x in got.items())}")
    rec.state(("split", [sorted(c) for c in chords], fv))


def run_case(case, rec):
    if case[0] == "split":
        return run_split(case, rec)
    if case[0] == "word":
        _, w, gi, order = case
        notes = [[p, GRIDS[gi] * (i if order != 2 else i + (0.4 if i % 2 else 0)), 90, False]
                 for i, c in enumerate(w) for p in CH[c]]
        if order == 1:
            notes = notes[::-1]
    elif case[0] == "long":
        notes = [[p, 0.5 * i, 90, False] for i in range(case[2]) for p in CH[case[1][i % len(case[1])]]]
    elif case[0] == "notes":
        notes = [[*KINDS[k], 90, False] for k in case[1]]
    else:
        notes = [[*PERM[case[1]][k], 90, False] for k in case[2]]
    b = gu.MidiGraphBuilder()
    g = b.build_sequence(gu.seq(notes))
    rec.step(len(notes))
    chords = [frozenset(n.p for n in gr) for _, gr in gm.groups([gm.N(p, s, v, d) for p, s, v, d in notes])]
    want = gm.walk(chords)
    rec.state([sorted(c) for c in chords])
    got = gu.edges_of(b, g)
    rec.outcome(sorted((sorted(u), sorted(v), w) for (u, v), w in got.items()))
    show = lambda d: sorted((sorted(u), sorted(v), x) for (u, v), x in d.items())
    rec.check(got == want, "edges", lambda: f"chords {[sorted(c) for c in chords]}: got {show(got)}, expected {show(want)}")
    rec.check(g.is_directed(), "directed")
    rec.eq(sum(got.values()), float(len(chords)), "total-weight")
