"""C14: merging, adding and inserting over all pairs and triples of small tracks."""
import itertools
from collections import Counter
from .. import nmodel as nm, tmodel as tm
from ..core import raises

PROP, LEVEL = "C14", "model_checking"
POOL = [(60, 0.0, 1.0, 80), (62, 0.0, 1.0, 90), (60, 0.0, 2.0, 70), (60, 0.5, 1.0, 100), (59, 0.5, 3.0, 1), (60, 0.0, 1.0, 33)]
BOUNDS = {
    "quick": "all pairs of tracks of up to 3 of 6 notes (in every order), all triples of tracks of up to 2 notes; all insertion orders of up to 5 of 6 notes; all divisions of 1..3 of 4 shared (also silent) notes over two tracks",
    "thorough": "all pairs of tracks of up to 4 and 3 of 6 notes (in every order), all triples of tracks of up to 2 notes; all insertion orders of all 6 notes",
}
ASSUMPTIONS = []


def setup():
    global MidiNoteSequence
    from neural_graph_composer.midi.midi_sequence import MidiNoteSequence


def arr(k):
    return [list(p) for n in range(k + 1) for p in itertools.permutations(range(6), n)]


def cases(tier):
    th = tier == "thorough"
    for a in arr(4 if th else 3):
        yield ["pair", a, False]
        if len(a) < 3:
            yield ["pair", a, True]
    for a in arr(2):
        yield ["triple", a]
    for n in range(1, (6 if th else 5) + 1):
        for c in itertools.combinations(range(6), n):
            yield ["insert", list(c)]
    yield ["refuse"]
    for n in range(1, 4):
        for c in itertools.product(range(len(POOL2)), repeat=n):
            yield ["shared", list(c)]


POOL2 = [(60, 0.0, 1.0, 80), (62, 0.5, 1.0, 0), (60, 0.5, 3.0, 0), (64, 2.0, 2.5, 1)]


def shared(case, rec):
    """notes that two tracks, or one track twice, hold in common, and silent notes"""
    c = case[1]
    have = [tm.note(POOL2[i]) for i in range(len(POOL2))]
    al2 = [nm.att(have[i]) for i in c]
    for r in range(len(c) + 1):
        x, y = tm.track([]), tm.track([])
        x.notes, y.notes = [have[i] for i in c[:r]], [have[i] for i in c[r:]]
        s = x + y
        rec.step(2)
        rec.eq(tm.atts(s), al2, "shared-sum", f"{c} {r}")
        x.merge(y)
        rec.check(Counter(tm.atts(x)) == Counter(al2), "shared-merge", lambda: f"{c} {r}: {tm.atts(x)}")
        rec.eq(tm.atts(y), al2[r:], "shared-other", f"{c} {r}")
        x.merge(x)
        rec.check(Counter(tm.atts(x)) == Counter(al2 * 2), "merge-itself", lambda: f"{c} {r}: {tm.atts(x)}")
        for i in c:
            y.insert(have[i])
        rec.check(Counter(tm.atts(y)) == Counter(al2[r:] + al2), "shared-insert", lambda: f"{c} {r}: {tm.atts(y)}")
        rec.state((tuple(c), r))


def mk(a, drum=False):
    return tm.track([POOL[i] for i in a], drum)


def al(a, drum=False):
    return [nm.att(tm.note(POOL[i], drum)) for i in a]


def run_case(case, rec):
    kind = case[0]
    if kind == "pair":
        a, drum = case[1:]
        for b in arr(3):
            rec.step(3)
            x, y = mk(a, drum), mk(b, drum)
            x.merge(y)
            got, want = tm.atts(x), al(a, drum) + al(b, drum)
            ctx = f"{a} + {b}"
            rec.check(Counter(got) == Counter(want), "contents", lambda: f"{ctx}: {got}")
            rec.check(tm.is_sorted(got), "order", lambda: f"{ctx}: {got}")
            rec.check(nm.close(x.total_time, tm.latest(want)), "total", ctx)
            rec.eq(tm.atts(y), al(b, drum), "other-changed", ctx)
            rec.check(nm.close(y.total_time, tm.latest(al(b, drum))), "other-total", ctx)
            u, v = mk(b, drum), mk(a, drum)
            u.merge(v)
            rec.eq([tm.key(t) for t in tm.atts(u)], [tm.key(t) for t in got], "commutes", ctx)
            u, v = mk(sorted(a), drum), mk(sorted(b), drum)
            u.merge(v)
            rec.eq([tm.key(t) for t in tm.atts(u)], [tm.key(t) for t in got], "supply-order", ctx)
            p, q = mk(a, drum), mk(b, drum)
            s = p + q
            rec.eq(tm.atts(s), want, "sum", ctx)
            rec.check(nm.close(s.total_time, tm.latest(want)), "sum-total", lambda: f"{ctx}: {s.total_time}")
            rec.eq((tm.atts(p), tm.atts(q), s.instrument), (al(a, drum), al(b, drum), p.instrument), "sum-sources", ctx)
            rec.state((tuple(a), tuple(b), drum))
        rec.outcome(tuple(sorted(a)))
    elif kind == "triple":
        a = case[1]
        for b, c in itertools.product(arr(2), repeat=2):
            rec.step(2)
            x = mk(a)
            x.merge(mk(b))
            x.merge(mk(c))
            y, z = mk(b), mk(a)
            y.merge(mk(c))
            z.merge(y)
            want = Counter(al(a) + al(b) + al(c))
            rec.check(Counter(tm.atts(x)) == want and Counter(tm.atts(z)) == want, "triple-contents", f"{a} {b} {c}")
            rec.eq([tm.key(t) for t in tm.atts(x)], [tm.key(t) for t in tm.atts(z)], "associates", f"{a} {b} {c}")
    elif kind == "shared":
        shared(case, rec)
    elif kind == "insert":
        for p in itertools.permutations(case[1]):
            x = mk([])
            have = []
            for i in p:
                rec.step()
                x.insert(tm.note(POOL[i]))
                have += al([i])
                got = tm.atts(x)
                rec.check(Counter(got) == Counter(have), "insert-contents", lambda: f"{p}: {got}")
                rec.check(tm.is_sorted(got), "insert-order", lambda: f"{p}: {got}")
                rec.check(nm.close(x.total_time, tm.latest(have)), "insert-total", lambda: f"{p}: {x.total_time}")
            rec.outcome(tuple(t[1] for t in tm.atts(x)))
    else:
        bad = [lambda: tm.track([POOL[0]], num=2, instrument=2), lambda: tm.track([POOL[0]], name="Other"),
               lambda: tm.track([POOL[0]], drum=True), lambda: tm.track([POOL[0]], instrument=2),
               lambda: tm.track([POOL[0]], resolution=96), lambda: [tm.note(POOL[0])], lambda: None, lambda: tm.note(POOL[0])]
        for k, f in enumerate(bad):
            for a in arr(2):
                x, y = mk(a), f()
                rec.step()
                before = tm.atts(y) if isinstance(y, MidiNoteSequence) else None
                rec.check(raises(x.merge, y)[0] is not None, "refuse", f"{k} {a}")
                if k != 4:
                    rec.check(raises(lambda: x + y)[0] is not None, "refuse-sum", f"{k} {a}")
                rec.eq(tm.atts(x), al(a), "refused-changes", f"{k} {a}")
                rec.check(nm.close(x.total_time, tm.latest(al(a))), "refused-total")
                if before is not None:
                    rec.eq(tm.atts(y), before, "refused-changes-other")
                    # a receiver with foreign notes
                    if k == 3:
                        rec.check(raises(y.merge, x)[0] is not None, "refuse-receiver")
                        rec.eq(tm.atts(y), before, "refused-changes-receiver")
