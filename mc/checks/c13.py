"""C13: contents and total time of a track under all words of its operations."""
import itertools
from collections import Counter
from .. import nmodel as nm, tmodel as tm
from ..core import raises

PROP, LEVEL = "C13", "model_checking"
BOUNDS = {
    "quick": "all words of 1..3 operations over 34 operations from an empty and a two-note track, melodic and drum",
    "thorough": "all words of 1..4 operations over 34 operations from an empty and a two-note track, melodic and drum",
}
ASSUMPTIONS = ["notes handed to a drum track are drum notes and to a melodic track melodic ones",
               "contents are changed through the operations of the track, not by mutating the list it hands out"]
OPS = [["append", [0]], ["append", [1]], ["appendl", [1, 0]], ["appendl", []], ["appendbad", 0], ["appendbad", 1],
       ["extend", [2]], ["extendl", [3, 1]], ["extendl", []], ["extendbad", 0], ["extendbad", 1],
       ["add", [0]], ["add", [3]], ["addforeign", [1]], ["insert", [1]], ["insert", [3]], ["insert", [2]],
       ["merge", [1, 2]], ["merge", []], ["mergeother", [1]], ["mergeforeign", [3]], ["mergebad"], ["mergeres", [1]], ["mergeself"],
       ["set", []], ["set", [3, 0]], ["stretch", 2.0], ["stretch", 0.5], ["shift", 1.0], ["shift", 0.25],
       ["cut", 0], ["cut", 1], ["cut", 2], ["cut", -1]]
STARTS = [[], [1, 0]]


def setup():
    global MidiNoteSequence
    from neural_graph_composer.midi.midi_sequence import MidiNoteSequence


def cases(tier):
    for n in range(1, (4 if tier == "thorough" else 3) + 1):
        for st in range(2):
            for drum in (False, True):
                for w in itertools.product(range(len(OPS)), repeat=n - 1):
                    yield [st, drum, list(w)]
    yield ["bulk"]


def check(seq, m, rec, ctx):
    rec.eq(tm.atts(seq), m, "contents", ctx)
    rec.eq(len(seq), len(m), "len", ctx)
    rec.check(nm.close(seq.total_time, tm.latest(m)), "total-time", lambda: f"{ctx}: {seq.total_time} but notes end at {tm.latest(m)}")
    rec.eq([nm.att(n) for n in seq], m, "iteration", ctx)


def apply(seq, m, op, drum, rec, ctx):
    k = op[0]
    N = [tm.note(tm.POOL[i], drum) for i in op[1]] if len(op) > 1 and isinstance(op[1], list) else []
    al = [nm.att(n) for n in N]
    ok = True
    if k in ("append", "extend", "add"):
        f = {"append": seq.append, "extend": seq.extend, "add": seq.add_note}[k]
        e, _ = raises(f, N[0])
        m += al
    elif k in ("appendl", "extendl"):
        e, _ = raises(seq.append if k == "appendl" else seq.extend, N)
        m += al
    elif k in ("appendbad", "extendbad"):
        bad = ("x", [tm.note(tm.POOL[0], drum), "x"])[op[1]]
        e, _ = raises(seq.append if k == "appendbad" else seq.extend, bad)
        ok = False
    elif k == "addforeign":
        e, _ = raises(seq.add_note, tm.note(tm.POOL[op[1][0]], drum, 2))
        ok = False
    elif k == "insert":
        e, _ = raises(seq.insert, N[0])
        got = tm.atts(seq)
        was_sorted = tm.is_sorted(m)
        rec.check(e is None, "accept", lambda: f"{ctx}: {e!r}")
        rec.check(Counter(got) == Counter(m + al), "insert-contents", ctx)
        rest = list(got)
        rec.check(any(got[:i] + got[i + 1:] == m for i, x in enumerate(got) if x == al[0]), "insert-moves-others", ctx)
        if was_sorted:
            rec.check(tm.is_sorted(got), "insert-order", lambda: f"{ctx}: {got}")
        m[:] = got
    elif k == "merge":
        other = MidiNoteSequence(notes=N, instrument=tm.info(1, drum))
        e, _ = raises(seq.merge, other)
        rec.check(e is None, "accept", lambda: f"{ctx}: {e!r}")
        rec.eq(tm.atts(other), al, "merge-other-changed", ctx)
        got = tm.atts(seq)
        rec.check(Counter(got) == Counter(m + al), "merge-contents", lambda: f"{ctx}: {got}")
        rec.check(tm.is_sorted(got), "merge-order", lambda: f"{ctx}: {got}")
        m[:] = got
    elif k == "mergeself":
        if len(m) > 4:
            return
        e, _ = raises(seq.merge, seq.clone())
        got = tm.atts(seq)
        rec.check(e is None and Counter(got) == Counter(m + m) and tm.is_sorted(got), "merge-clone", lambda: f"{ctx}: {e!r} {got}")
        m[:] = got
    elif k in ("mergeother", "mergeforeign", "mergeres"):
        if k == "mergeother":
            other = tm.track([tm.POOL[i] for i in op[1]], drum, num=2, instrument=2)
        elif k == "mergeforeign":
            other = tm.track([tm.POOL[i] for i in op[1]], drum, num=1, instrument=2)
        else:
            other = tm.track([tm.POOL[i] for i in op[1]], drum, resolution=480)
        before = tm.atts(other)
        e, _ = raises(seq.merge, other)
        rec.eq(tm.atts(other), before, "merge-other-changed", ctx)
        ok = False
    elif k == "mergebad":
        e, _ = raises(seq.merge, [tm.note(tm.POOL[0], drum)])
        ok = False
    elif k == "set":
        e, _ = raises(setattr, seq, "notes", N)
        m[:] = al
    elif k == "stretch":
        e, _ = raises(seq.stretch, op[1])
        m[:] = [a[:4] + (a[4] * op[1], a[5] * op[1]) + a[6:] for a in m]
    elif k == "shift":
        e, _ = raises(seq.shift_times, op[1])
        if not m:
            e = None            # shifting nothing may be refused or do nothing
        m[:] = [a[:4] + (a[4] + op[1], a[5] + op[1]) + a[6:] for a in m]
    elif k == "cut":
        e, _ = raises(seq.cut_in_place, op[1])
        m[:] = m[:op[1]]
    rec.check((e is None) == ok, "accept" if ok else "refuse", lambda: f"{ctx}: {e!r}")


def run_case(case, rec):
    if case[0] == "bulk":
        for drum in (False, True):
            for idx in itertools.product(range(5), repeat=3):
                for k in range(4):
                    N = [tm.POOL[i] for i in idx[:k]]
                    seqs = [tm.track([], drum) for _ in range(6)]
                    for n in N:
                        seqs[0].append(tm.note(n, drum))
                        seqs[1].extend(tm.note(n, drum))
                        seqs[2].add_note(tm.note(n, drum))
                    seqs[3].append([tm.note(n, drum) for n in N])
                    seqs[4].extend([tm.note(n, drum) for n in N])
                    seqs[5].notes = [tm.note(n, drum) for n in N]
                    if not drum:
                        seqs.append(MidiNoteSequence.from_notes([tm.note(n, drum) for n in N]))
                    seqs.append(tm.track(N, drum))
                    rec.step(3)
                    al = [nm.att(tm.note(n, drum)) for n in N]
                    for j, s in enumerate(seqs):
                        check(s, al, rec, f"form {j} of {N}")
        return
    st, drum, w = case
    # all extensions of the word by one operation
    for last in range(len(OPS)):
        seq = tm.track([tm.POOL[i] for i in STARTS[st]], drum)
        m = [nm.att(tm.note(tm.POOL[i], drum)) for i in STARTS[st]]
        check(seq, m, rec, "start")
        for o in w + [last]:
            ctx = f"{[OPS[x] for x in w + [last]]} at {OPS[o]}"
            apply(seq, m, OPS[o], drum, rec, ctx)
            rec.step()
            check(seq, m, rec, ctx)
        rec.state((drum, tuple(m)))
        rec.outcome(tuple(a[0] for a in m))
