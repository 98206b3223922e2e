"""C21: tracks of a piece under all words of track operations."""
import itertools
from collections import Counter
from .. import nmodel as nm, tmodel as tm
from ..core import raises

PROP, LEVEL = "C21", "model_checking"
IDX = [0, 3, 127]
OPS = ([["create", i, 40 + i % 9] for i in IDX] + [["create", 3, 77]] + [["get", i] for i in (0, 3)] + [["item", i] for i in (0, 3, 127)] +
       [["assign", i] for i in (0, 3)] + [["assignl", 3], ["setl", 0], ["set", 127]] + [["note", i] for i in (0, 3, 127)] +
       [["bad", k] for k in range(9)])
BOUNDS = {
    "quick": "all words of up to 3 of 26 operations over track numbers 0, 3, 127; all lists of up to 3 of 4 tracks at construction",
    "thorough": "all words of up to 4 of 26 operations over track numbers 0, 3, 127; all lists of up to 4 of 4 tracks at construction",
}
ASSUMPTIONS = []


def setup():
    global Piece, Track
    from neural_graph_composer.midi.midi_sequences import MidiNoteSequences as Piece
    from neural_graph_composer.midi.midi_sequence import MidiNoteSequence as Track


def cases(tier):
    th = tier == "thorough"
    for n in range(1, (4 if th else 3) + 1):
        for w in itertools.product(range(len(OPS)), repeat=n - 1):
            yield ["word", list(w)]
    for n in range((4 if th else 3) + 1):
        for w in itertools.product(range(4), repeat=n):
            yield ["init", list(w)]


def check(p, m, rec, ctx):
    """m: number -> (object or None, instrument number, drum, list of notes)"""
    rec.eq(list(p), sorted(m), "iteration", ctx)
    rec.eq((len(p), p.num_track()), (len(m), len(m)), "len", ctx)
    rec.eq([i.instrument_num for i in p.instruments], [m[i][1] for i in sorted(m)], "instruments", ctx)
    rec.eq(p.num_instruments(), len({m[i][1] for i in m}), "num-instruments", ctx)
    for i in IDX + [1]:
        rec.eq(p.instrument_midi_seq_len(i), len(m[i][3]) if i in m else 0, "notes-of", f"{ctx} {i}")
    for i in list(m):
        t = p[i]
        rec.check(isinstance(t, Track), "type", ctx)
        if m[i][0] is not None:
            rec.check(t is m[i][0], "same-track", lambda: f"{ctx}: number {i} names another track")
        m[i][0] = t
        rec.eq((t.instrument.instrument_num, t.instrument.is_drum), (m[i][1], m[i][2]), "instrument", f"{ctx} {i}")
        rec.eq(tm.atts(t), m[i][3], "contents", f"{ctx} {i}")
        rec.check(p.get_track(i, "x", 5, False) is t, "get-track", ctx)
    rec.eq(list(p), sorted(m), "reading-adds", ctx)
    rec.eq(len({id(m[i][0]) for i in m}), len(m), "distinct", ctx)


def run_case(case, rec):
    if case[0] == "init":
        T = [(1, [0]), (2, [1]), (1, [3, 2]), (2, [])]
        objs = [tm.track([tm.POOL[i] for i in T[k][1]], num=T[k][0], instrument=T[k][0]) for k in case[1]]
        want, first = {}, {}
        for k, o in zip(case[1], objs):
            want.setdefault(T[k][0], [])
            want[T[k][0]] += tm.atts(o)
            first.setdefault(T[k][0], o)
        e, p = raises(Piece, midi_seq=objs if len(objs) != 1 else objs[0])
        rec.step(len(objs) + 1)
        rec.check(e is None, "construct", lambda: f"{case[1]}: {e!r}")
        rec.eq(list(p), sorted(want), "construct-tracks", f"{case[1]}")
        for i in want:
            got = tm.atts(p[i])
            rec.check(Counter(got) == Counter(want[i]), "construct-contents", lambda: f"{case[1]} {i}: {got}")
            rec.check(nm.close(p[i].total_time, tm.latest(got)), "construct-total")
            if sum(T[k][0] == i for k in case[1]) > 1:
                rec.check(tm.is_sorted(got), "construct-order", lambda: f"{case[1]} {i}: {got}")
        rec.state(tuple(case[1]))
        return
    for last in range(len(OPS)):
        p, m = Piece(resolution=96), {}
        word = case[1] + [last]
        for n, o in enumerate(word):
            op = OPS[o]
            ctx = f"{[OPS[x] for x in word]} at {op}"
            rec.step()
            k, i = op[0], op[1]
            if k == "create":
                e, r = raises(p.create_track, i, op[2], "T", i == 3)
                rec.check(e is None and r == i, "create", lambda: f"{ctx}: {e!r} {r}")
                m.setdefault(i, [None, op[2], i == 3, []])
            elif k == "get":
                e, r = raises(p.get_track, i, "G", 33, True)
                rec.check(e is None, "get", lambda: f"{ctx}: {e!r}")
                m.setdefault(i, [r, 33, True, []])
                rec.check(r is not None and (m[i][0] is None or r is m[i][0]), "get-same", ctx)
            elif k == "item":
                e, r = raises(lambda: p[i])
                rec.check(e is None, "item", lambda: f"{ctx}: {e!r}")
                m.setdefault(i, [r, i, False, []])
                rec.check(m[i][0] is None or r is m[i][0], "item-same", ctx)
            elif k in ("assign", "set"):
                t = tm.track([tm.POOL[n % 5]], num=9, instrument=9)
                e, _ = raises(p.__setitem__ if k == "assign" else p.set_sequence, i, t)
                rec.check(e is None, "assign", lambda: f"{ctx}: {e!r}")
                m[i] = [t, 9, False, tm.atts(t)]
            elif k in ("assignl", "setl"):
                N = [tm.note(tm.POOL[1]), tm.note(tm.POOL[n % 5])]
                e, _ = raises(p.__setitem__ if k == "assignl" else p.set_sequence, i, N)
                rec.check(e is None, "assign-list", lambda: f"{ctx}: {e!r}")
                m[i] = [None, 0, False, [nm.att(x) for x in N]]
            elif k == "note":
                if i not in m:
                    continue
                x = tm.note((60 + n, 0.5 * n, 4.0, 9), m[i][2])
                e, _ = raises(p[i].append, x)
                m[i][3].append(nm.att(x))
            else:
                f = [lambda: p[-1], lambda: p[128], lambda: p["a"], lambda: p.__setitem__(0, 5), lambda: p.__setitem__(200, []),
                     lambda: p.get_track(-1, "x", 1, False), lambda: p.create_track(3, 128, "x", False),
                     lambda: p.create_track(0, 1, 5, False),
                     lambda: p.get_track(128, "x", 1, False)][i]
                e, _ = raises(f)
                rec.check(e is not None, "refuse", ctx)
            check(p, m, rec, ctx)
        rec.state(repr([(i, m[i][1:]) for i in sorted(m)]))
        rec.outcome(tuple(sorted(m)))
