"""C17: quantizing tracks and pieces over all small tracks, grids, strengths, repeatedly."""
import itertools
from .. import nmodel as nm, tmodel as tm
from ..core import raises

PROP, LEVEL = "C17", "model_checking"
NOTES = [(60, 0.0, 0.3, 80), (61, 0.1, 1.9, 81), (62, 0.55, 0.7, 82), (63, 2.26, 3.4, 83), (64, 1.0, 2.0, 84)]
CCT = [0.0, 0.3, 2.26, 1.0]
GRID = [(sps, am) for sps in (1, 2, 3, 4, 8, 16, 32) for am in (0.25, 0.5, 1.0)]
BOUNDS = {
    "quick": "all tracks of up to 3 of 5 notes in every order with 0..2 of 4 controllers, melodic and drum, times 21 grids and strengths, each quantized again 7 ways; all pieces of two such tracks of up to one note",
    "thorough": "all tracks of up to 4 of 5 notes in every order with 0..2 of 4 controllers, melodic and drum, times 21 grids and strengths, each quantized again 21 ways; all pieces of two tracks",
}
ASSUMPTIONS = ["at most 32 steps per second (the limit of controller grids)"]


def setup():
    global MidiNoteSequence, MidiNoteSequences, CC
    from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
    from neural_graph_composer.midi.midi_sequences import MidiNoteSequences
    from neural_graph_composer.midi.midi_control_change import MidiControlChange as CC


def cases(tier):
    th = tier == "thorough"
    for n in range((4 if th else 3) + 1):
        for p in itertools.permutations(range(5), n):
            for c in ((), (0,), (1, 2), (2, 1), (3,)):
                for drum in (False, True):
                    yield ["track", list(p), list(c), drum, th]
    for a in itertools.product((0, 1, 2), repeat=2):
        yield ["piece", list(a)]
    yield ["refuse"]


def mk(p, c, drum, num=1):
    s = tm.track([NOTES[i] for i in p], drum, num, instrument=num)
    for i in c:
        s.add_control_changes(CC(7 + i, 100, CCT[i], 3, 1, drum))
    return s


def ccl(s):
    return [tm.cc_att(c) + (c.quantized_step, c.quantized_start_step, c.quantized_end_step, c.is_quantized()) for c in s.control_changes]


def check(s, notes, ccs, sps, am, rec, ctx):
    """s is a track of `notes`, controllers `ccs` (attribute tuples before) quantized"""
    want = [a[:4] + nm.quantized(a[4], a[5], sps, am) + a[8:] for a in notes]
    got = tm.atts(s)
    rec.check(len(got) == len(want) and all(nm.same(x, y) for x, y in zip(got, want)), "notes", lambda: f"{ctx}: {got} expected {want}")
    wc = []
    for c in ccs:
        k = max(0, int(c[2] * sps + (1 - am)))
        wc.append(c[:6] + (sps, k, k + 1, True))
    rec.eq(ccl(s), wc, "controllers", ctx)
    rec.eq(s.total_quantized_steps, max([a[7] for a in want], default=0), "steps", ctx)
    rec.check(nm.close(s.total_time, tm.latest(want)), "total", lambda: f"{ctx}: {s.total_time}")
    rec.eq(s.is_quantized(), True, "quantized", ctx)


def run_case(case, rec):
    if case[0] == "refuse":
        for sps, am in ((0, 0.5), (-1, 1.0), (4, 0), (4, -1.0)):
            s = mk([1, 0], [1], False)
            b = tm.atts(s), ccl(s), s.total_time, s.total_quantized_steps
            rec.step()
            rec.check(raises(s.quantize, sps, am)[0] is not None, "refuse")
            rec.eq((tm.atts(s), ccl(s), s.total_time, s.total_quantized_steps), b, "refused-changes", f"{sps} {am}")
        s = mk([1, 0], [1], False)
        b = tm.atts(s), ccl(s), s.total_time, s.total_quantized_steps
        if raises(s.quantize, 100, 1.0)[0] is not None:      # finer than a controller allows
            rec.eq((tm.atts(s), ccl(s), s.total_time, s.total_quantized_steps), b, "refused-changes", "100")
        return
    if case[0] == "piece":
        for k1, k2 in itertools.product(range(3), repeat=2):
            # tracks of k notes, the first q of which are quantized
            for q1, q2 in itertools.product(range(k1 + 1), range(k2 + 1)):
                p = MidiNoteSequences(midi_seq=[mk(range(k1), [], False, 1), mk(range(k2), [], bool(case[1][0]), 2)])
                for t, q in ((1, q1), (2, q2)):
                    for n in p[t].notes[:q]:
                        n.quantize_in_place(4, 1.0)
                rec.step()
                rec.eq((p[1].is_quantized(), p[2].is_quantized()), (q1 == k1, q2 == k2), "track-flag", f"{k1},{q1} {k2},{q2}")
                rec.eq(p.is_quantized(), q1 == k1 and q2 == k2, "piece-flag", f"{k1},{q1} {k2},{q2}")
                rec.state((case[1], k1, k2, q1, q2))
        return
    _, p, c, drum, th = case
    for sps, am in GRID:
        s = mk(p, c, drum)
        held, before = list(s.notes), tm.atts(s)
        heldc, beforec = list(s.control_changes), ccl(s)
        rec.eq(s.is_quantized(), not p, "not-yet")
        s.quantize(sps, am)
        rec.step()
        ctx = f"{[NOTES[i] for i in p]} cc {c} at {sps} strength {am}"
        check(s, before, beforec, sps, am, rec, ctx)
        rec.eq([nm.att(n) for n in held], before, "source-notes", ctx)
        rec.eq([tm.cc_att(x) + (x.quantized_step, x.quantized_start_step, x.quantized_end_step, x.is_quantized()) for x in heldc], beforec, "source-controllers", ctx)
        for sps2, am2 in GRID if th else [(g, 1.0) for g in (1, 2, 3, 4, 8, 16)] + [(2, 0.5)]:
            s2 = s.clone()
            b2, c2 = tm.atts(s2), ccl(s2)
            s2.quantize(sps2, am2)
            rec.step()
            check(s2, b2, c2, sps2, am2, rec, f"{ctx} then {sps2} strength {am2}")
        if p:
            n = tm.note((65, 5.0, 6.0, 1), drum)
            s.append(n)
            rec.eq(s.is_quantized(), False, "mixed", ctx)
        # emptied, then quantized again
        s.notes = []
        s.quantize(sps, am)
        rec.step()
        rec.eq((s.notes, s.total_quantized_steps), ([], 0), "emptied", ctx)
        rec.state((p, c, drum, sps, am))
    rec.outcome(tuple(tm.atts(s)))
