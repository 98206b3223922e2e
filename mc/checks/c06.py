"""C06: velocity scaling over all small vectors; velocity rows over all note orders."""
import itertools
from .. import gmodel as gm
from .. import gutil as gu

PROP, LEVEL = "C06", "model_checking"
BOUNDS = {
    "quick": "all vectors of length 1..4 over 9 boundary velocities x 4 target ranges x 4 factors; all pairs of 0..127; all orders of 5 notes over 2 pitches x 3 velocities",
    "thorough": "vectors of length 1..5 over 10 velocities; all triples over every 4th velocity; all orders of 6 notes",
}
ASSUMPTIONS = []
VALS = [0, 1, 20, 31, 32, 64, 100, 126, 127, 33]
RANGES = [(32, 127), (0, 127), (64, 70), (1, 100)]
FACT = [1.0, 0.5, 2.0, 1.1]


def setup():
    gu.load()


def cases(tier):
    th = tier == "thorough"
    k = 10 if th else 9
    for n in range(1, (5 if th else 4) + 1):
        for a in range(k):
            yield ["vec", n, a, k]
    for a in range(128):
        yield ["pairs", a]
    if th:
        for a in range(0, 128, 4):
            yield ["triples", a]
    m = 6 if th else 5
    for vs in itertools.product([20, 64, 127], repeat=m):
        yield ["order", list(vs)]


def vec(v, rec):
    v = list(v)
    for lo, hi in RANGES:
        rec.step()
        arg = list(v)
        r = gu.MidiGraphBuilder.rescale_velocities(arg, lo, hi) if (lo, hi) != (32, 127) else \
            gu.MidiGraphBuilder.rescale_velocities(arg)
        rec.check(arg == v, "argument-modified", lambda: f"{v} -> {arg}")
        rec.check(len(r) == len(v), "length", lambda: f"{v} -> {r}")
        rec.check(all(lo <= x <= hi for x in r), "range", lambda: f"{v} -> {r} not in {lo}..{hi}")
        ps = sorted(zip(v, r))
        rec.check(all(a[1] <= b[1] for a, b in zip(ps, ps[1:])), "order", lambda: f"{v} -> {r}")
        rec.check(all(a[1] == b[1] for a, b in zip(ps, ps[1:]) if a[0] == b[0]), "equal", lambda: f"{v} -> {r}")
        if min(v) != max(v):
            rec.check(r[v.index(min(v))] == lo and r[v.index(max(v))] == hi, "extremes", lambda: f"{v} -> {r}, {lo}..{hi}")
            want = [lo + (x - min(v)) * (hi - lo) / (max(v) - min(v)) for x in v]
            rec.check(all(abs(a - b) <= 1 for a, b in zip(r, want)), "proportion", lambda: f"{v} -> {r}")
        rec.outcome(tuple(r))
    for f in FACT:
        rec.step()
        r = gu.MidiGraphBuilder.scale_relative_velocities(list(v), f)
        rec.check(len(r) == len(v), "rel-length", lambda: f"{v} -> {r}")
        rec.check(all(0 <= x <= 127 for x in r), "rel-range", lambda: f"{v} x{f} -> {r}")
        ps = sorted(zip(v, r))
        rec.check(all(a[1] <= b[1] for a, b in zip(ps, ps[1:])), "rel-order", lambda: f"{v} x{f} -> {r}")
        rec.check(all(abs(x - min(127, a * f)) <= 1.000001 for a, x in zip(v, r)), "rel-factor", lambda: f"{v} x{f} -> {r}")
    rec.state(tuple(v))


def run_case(case, rec):
    if case[0] == "vec":
        for rest in itertools.product(VALS[:case[3]], repeat=case[1] - 1):
            vec([VALS[case[2]], *rest], rec)
    elif case[0] == "pairs":
        for b in range(128):
            vec([case[1], b], rec)
    elif case[0] == "triples":
        for b in range(0, 128, 4):
            for c in range(0, 128, 4):
                vec([case[1], b, c], rec)
    else:
        vs = case[1]
        pitches = [60, 64, 60, 64, 60, 67][:len(vs)]
        base = [[p, 1.0, v, False] for p, v in zip(pitches, vs)]
        seen = set()
        best = {p: max(v for q, v in zip(pitches, vs) if q == p) for p in pitches}
        for o in set(itertools.permutations(map(tuple, base))):
            rec.step()
            g = gu.MidiGraphBuilder().build_sequence(gu.seq([list(n) for n in o]), is_include_velocity=True)
            (n, d), = g.nodes(data=True)
            x = d["attr"].tolist()
            k = len(best)
            row = dict(zip(map(int, x[0][:k]), x[1][:k]))
            seen.add(tuple(sorted(row.items())))
            want = dict(zip(x[0][:k], gm.rescale([best[int(p)] for p in x[0][:k]])))
            rec.check({p: int(v) for p, v in row.items()} == {int(p): v for p, v in want.items()}, "loudest",
                      lambda: f"{o}: {row} expected {want}")
            # the same as one-hot rows: a pitch and its velocity in each
            g = gu.MidiGraphBuilder().build_sequence(gu.seq([list(n) for n in o]), is_include_velocity=True,
                                                     node_attr_type=gu.NodeAttributeType.OneHotTensor)
            (n, d), = g.nodes(data=True)
            got = [([i for i, y in enumerate(r[:128]) if y], sum(r[:128]), r[128:]) for r in d["attr"].tolist()]
            rec.check(sorted(got) == sorted(([int(p)], 1, [v]) for p, v in want.items()), "onehot", lambda: f"{o}: {got} expected {want}")
        rec.check(len(seen) == 1, "order-dependent", lambda: f"{seen}")
        rec.state(("order", tuple(vs)))
        rec.outcome(seen)
