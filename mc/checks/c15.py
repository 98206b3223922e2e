"""C15: windows of tracks over all small tracks and all bounds on and off the grid."""
import itertools
from .. import nmodel as nm, tmodel as tm
from ..core import raises

PROP, LEVEL = "C15", "model_checking"
ENDS = [0.0, 1.0, 2.0, 3.0]
NOTES = [(60 + i, s, e, 80 + i) for i, (s, e) in enumerate(itertools.combinations(ENDS, 2))] + [(50, 1.0, 2.0, 9)]
TIMES = [0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 3.5]
BOUNDS = {
    "quick": "all tracks of up to 3 of 7 notes on a 4-point grid in every order, melodic and drum; all windows, limits, cuts, lists of up to 4 split times and spans on and between grid points; windows and limits 0.1 us to 50 ms beside the starts and ends of notes",
    "thorough": "as quick with tracks of up to 4 notes",
}
ASSUMPTIONS = ["tracks hold notes of their own instrument and kind"]


def setup():
    global MidiNoteSequence, MidiNoteSequences, CC, PB
    from neural_graph_composer.midi.midi_control_change import MidiControlChange as CC
    from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend as PB
    from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
    from neural_graph_composer.midi.midi_sequences import MidiNoteSequences


def cases(tier):
    for n in range((4 if tier == "thorough" else 3) + 1):
        for p in itertools.permutations(range(len(NOTES)), n):
            yield ["win", list(p), False]
            if n < 3:
                yield ["win", list(p), True]
    for d in (0.0, 1e-7, 1e-6, 1e-4, 9e-4, 1e-3, 0.05):
        for e in (1e-5, 5e-4, 0.5):
            yield ["fine", d, e]
    for n in range(3):
        for p in itertools.permutations(range(len(NOTES)), n):
            yield ["piece", list(p)]


def clip(a, e):
    return a[:5] + (min(a[5], e),) + a[6:]


def poke(seq):
    """change everything in the derived track"""
    for n in list(seq.notes) + list(seq.drum_events):
        n.shift_time(7.0)
        n.pitch = 1
    seq.add_control_changes(CC(7, 1))
    seq.add_pitch_bends(PB(1))
    seq.append(tm.note((99, 0.0, 99.0, 5), seq.instrument.is_drum))
    seq.stretch(3.0)
    seq.resolution = 96
    seq.notes.clear()
    seq.drum_events.clear()
    seq.control_changes.clear()
    seq.pitch_bends.clear()


def fine(d, e, rec):
    """bounds close to the starts and ends of notes"""
    specs = [(60, 1.0, 1.0 + e, 80), (61, 1.0 + e, 3.0, 81), (62, 2.0 - d / 2, 2.0 + d, 82)]
    specs = [s for s in specs if s[1] < s[2]]
    marks = sorted({x for s in specs for t in s[1:3] for x in (t - d, t, t + d, t + d / 2)} | {0.0})
    for order in itertools.permutations(specs):
        seq = tm.track(list(order))
        m = tm.atts(seq)
        for a, b in itertools.product(marks, repeat=2):
            rec.step()
            ctx = f"slice({a},{b}) of {order}"
            rec.eq(tm.atts(seq.slice(a, b)), [clip(x, b) for x in m if a <= x[4] < b], "slice", ctx)
            if a < b and a < seq.total_time:
                (p,) = seq.extract([a, b])
                want = [x[:4] + (x[4] - a, min(x[5], b) - a) + x[6:] for x in sorted(m, key=lambda x: x[4]) if a <= x[4] < b]
                rec.eq(tm.atts(p), want, "extract-notes", ctx)
        for b in marks:
            rec.eq(tm.atts(seq.truncate(b)), [x for x in m if x[5] <= b], "truncate", f"{b} of {order}")
        rec.eq(tm.atts(seq), m, "source-notes", f"{order}")
        rec.state((d, e, order))


def run_case(case, rec):
    if case[0] == "fine":
        return fine(*case[1:], rec)
    if case[0] == "piece":
        return piece(case[1], rec)
    _, idx, drum = case
    specs = [NOTES[i] for i in idx]
    seq = tm.track(specs, drum)
    m = tm.atts(seq)
    total = seq.total_time
    ins = seq.instrument
    seq.add_control_changes(CC(64, 5, 1.0))
    seq.add_pitch_bends(PB(5, 1.0))
    rest = lambda: (len(seq.notes), len(seq.drum_events), [tm.cc_att(c) for c in seq.control_changes], [(b.midi_time, b.amount) for b in seq.pitch_bends], seq.resolution, seq.instrument.instrument_num)
    r0 = rest()

    def intact(ctx):
        rec.eq(tm.atts(seq), m, "source-notes", ctx)
        rec.eq(seq.total_time, total, "source-total", ctx)
        rec.eq(rest(), r0, "source-rest", ctx)

    for a, b in itertools.product(TIMES, repeat=2):
        rec.step()
        s = seq.slice(a, b)
        ctx = f"slice({a},{b}) of {specs}"
        rec.eq(tm.atts(s), [clip(x, b) for x in m if a <= x[4] < b], "slice", ctx)
        rec.eq((s.instrument, s.resolution), (ins, seq.resolution), "slice-instrument", ctx)
        intact(ctx)
        poke(s)
        intact(ctx + " then changed")
        e, t = raises(seq.slice, a, b, True)
        rec.check((e is None) == (not m), "strict-slice", lambda: f"{ctx}: {e!r}")
    for b in TIMES:
        rec.step()
        s = seq.truncate(b)
        ctx = f"truncate({b}) of {specs}"
        rec.eq(tm.atts(s), [x for x in m if x[5] <= b], "truncate", ctx)
        rec.eq(s.instrument, ins, "truncate-instrument", ctx)
        intact(ctx)
        poke(s)
        intact(ctx + " then changed")
        for off in (0.0, 0.5):
            rec.eq(seq.truncate_to_last_event(off), tm.latest(m) + off, "last-event", ctx)
    for k in range(len(m) + 2):
        rec.step()
        s = seq.cut(k)
        ctx = f"cut({k}) of {specs}"
        rec.eq(tm.atts(s), m[:k], "cut", ctx)
        rec.check(nm.close(s.total_time, tm.latest(m[:k])), "cut-total", lambda: f"{ctx}: {s.total_time}")
        rec.eq(s.instrument, ins, "cut-instrument", ctx)
        intact(ctx)
    srt = sorted(m, key=lambda x: x[4])
    for n in (2, 3, 4):
        for w in itertools.combinations_with_replacement(TIMES if n < 4 else TIMES[1::2] + [0.0, 1.0], n):
            if list(w) != sorted(w):
                continue
            rec.step()
            e, r = raises(seq.extract, list(w))
            ctx = f"extract({w}) of {specs}"
            intact(ctx)
            if not m or any(t >= total for t in w[:-1]):
                rec.check(e is not None, "extract-refuse", ctx)
                continue
            rec.check(e is None, "extract", lambda: f"{ctx}: {e!r}")
            rec.eq(len(r), n - 1, "extract-pieces", ctx)
            for p, lo, hi in zip(r, w, w[1:]):
                want = [x[:4] + (x[4] - lo, min(x[5], hi) - lo) + x[6:] for x in srt if lo <= x[4] < hi]
                rec.eq(tm.atts(p), want, "extract-notes", f"{ctx} [{lo},{hi})")
                rec.check(nm.close(p.total_time, tm.latest(want)), "extract-total", lambda: f"{ctx}: {p.total_time}")
                poke(p)
            intact(ctx + " then changed")
    for bad in ([], [1.0], [2.0, 1.0]):
        rec.check(raises(seq.extract, bad)[0] is not None, "extract-bad", f"{bad}")
    for span in (0.75, 1.0, 1.5, 2.0, 5.0, [1.0], [2.0, 0.5]):
        for skip in (False, True):
            rec.step()
            e, r = raises(seq.split, span, skip)
            ctx = f"split({span},{skip}) of {specs}"
            intact(ctx)
            pts = sorted(span) if isinstance(span, list) else [span * i for i in range(1, 9) if span * i < total]
            cut = [0.0] + [t for t in pts if not (skip and any(x[4] < t < x[5] for x in m))]
            if not m or any(t >= total for t in cut):
                if not m and not isinstance(span, list):
                    rec.check(e is None and r == [], "split-empty", lambda: f"{ctx}: {e!r} {r}")
                continue
            cut.append(total)
            rec.check(e is None, "split", lambda: f"{ctx}: {e!r}")
            rec.eq(len(r), len(cut) - 1, "split-pieces", ctx)
            for p, lo, hi in zip(r, cut, cut[1:]):
                want = [x[:4] + (x[4] - lo, min(x[5], hi) - lo) + x[6:] for x in srt if lo <= x[4] < hi]
                rec.eq(tm.atts(p), want, "split-notes", f"{ctx} [{lo},{hi})")
    seq.append(tm.note((61, 0.0, 9.0, 5), drum))
    rec.eq(seq.truncate_to_last_event(0.0), 9.0, "last-event-after-change", f"{specs}")
    rec.eq(seq.truncate_to_last_event(None), None, "last-event-none")
    rec.state((tuple(idx), drum))
    rec.outcome(tuple(m))


def piece(idx, rec):
    other = [NOTES[0], NOTES[3]]
    for a, b in itertools.product(TIMES, repeat=2):
        specs = [NOTES[i] for i in idx]
        p = MidiNoteSequences(midi_seq=[tm.track(specs), tm.track(other, True, 2, instrument=2)])
        m1, m2 = tm.atts(p[1]), tm.atts(p[2])
        rec.step()
        p.trim(b, a)
        for k, m in ((1, m1), (2, m2)):
            rec.eq(tm.atts(p[k]), [clip(x, b) for x in m if a <= x[4] < b], "trim", f"trim({b},{a}) of {specs} track {k}")
        rec.eq(list(p), [1, 2], "trim-tracks")
        if a == 0.0:
            p = MidiNoteSequences(midi_seq=[tm.track(specs), tm.track(other, True, 2, instrument=2)])
            t = p.truncate(from_start=b)
            last = max([x[5] for x in m1 + m2 if x[5] <= b], default=None)
            rec.eq(t, last, "truncate-piece", f"truncate(from_start={b}) of {specs}")
            for k, m in ((1, m1), (2, m2)):
                want = m if last is None else [clip(x, last) for x in m if x[4] < last]
                rec.eq(tm.atts(p[k]), want, "truncate-piece-notes", f"truncate(from_start={b}) of {specs} track {k}")
            p = MidiNoteSequences(midi_seq=[tm.track(specs), tm.track(other, True, 2, instrument=2)])
            rec.eq(p.truncate(), tm.latest(m1 + m2), "truncate-all")
            rec.eq((tm.atts(p[1]), tm.atts(p[2])), (m1, m2), "truncate-all-notes", f"{specs}")
        rec.state((tuple(idx), a, b))
