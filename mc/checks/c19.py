"""C19: every word of queries on small notes, tracks and pieces leaves them as they are and repeats the answers."""
import contextlib
import io
import itertools
from .. import nmodel as nm, tmodel as tm, gutil as gu
from ..core import raises

PROP, LEVEL = "C19", "model_checking"
BOUNDS = {
    "quick": "all pairs (and triples of 8) of 32 queries on 85 tracks (up to 3 of 4 notes in every order, melodic and drum, quantized or "
             "not, with and without controllers), all pairs of 32 queries on 24 pieces, all pairs of 20 queries on 12 notes",
    "thorough": "all triples of the queries on the same tracks and pieces",
}
ASSUMPTIONS = ["what a query hands out is not changed by the caller"]
POOL = [(64, 2.0, 2.5, 100), (60, 0.0, 1.0, 80), (62, 0.5, 3.0, 90), (59, 0.5, 2.0, 1)]


def setup():
    global Piece, TS, TP, KS, CC, PB, Reader, pretty_midi
    gu.load()
    import pretty_midi
    from neural_graph_composer.midi.midi_sequences import MidiNoteSequences as Piece
    from neural_graph_composer.midi.midi_time_signature import MidiTimeSignature as TS, MidiTempoSignature as TP
    from neural_graph_composer.midi.midi_key_signature import MidiKeySignature as KS
    from neural_graph_composer.midi.midi_control_change import MidiControlChange as CC
    from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend as PB
    from neural_graph_composer.midi_reader import MidiReader as Reader


# ------------------------------------------------------------------ what is observed
def track_state(s):
    return (tm.atts(s), [nm.att(n) for n in s.drum_events], s.total_time, s.resolution, s.instrument, s.instrument.name,
            [tm.cc_att(c) + (c.quantized_step,) for c in s.control_changes], [(b.midi_time, b.amount, b.program) for b in s.pitch_bends],
            s.total_quantized_steps, [n.is_quantized() for n in s.notes], s.steps_per_second)


def piece_state(p):
    return ([(k, track_state(p[k])) for k in p], p.resolution, p.total_time,
            [(t.midi_time, t.numerator, t.denominator, t.seq) for t in p.time_signatures],
            [(k.midi_time, k.midi_key, k.mode, k.seq) for k in p.key_signatures],
            [(t.midi_time, t.qpm, t.resolution, t.seq) for t in p.tempo_signatures])


def note_state(n):
    return nm.att(n) + (n.pitch_name, n.is_quantized())


def plain(x):
    """an answer as a plain value"""
    if isinstance(x, gu.MidiNote):
        return ("note",) + note_state(x)
    if isinstance(x, gu.MidiNoteSequence):
        return ("track",) + track_state(x)
    if isinstance(x, (CC, PB)):
        return repr(sorted(vars(x).items()))
    if isinstance(x, (TS, TP)):
        return repr([(k, getattr(x, k)) for k in ("midi_time", "numerator", "qpm") if hasattr(x, k)])
    if isinstance(x, KS):
        return (x.midi_time, x.midi_key, x.mode)
    if isinstance(x, BaseException):
        return type(x).__name__
    if isinstance(x, gu.nx.Graph):
        return ("graph", [(n, str(d)) for n, d in x.nodes(data=True)], list(x.edges(data=True)))
    if isinstance(x, pretty_midi.PrettyMIDI):
        return (x.resolution, [(i.program, i.is_drum, [repr(n) for n in i.notes], [repr(c) for c in i.control_changes], [repr(b) for b in i.pitch_bends])
                               for i in x.instruments], [repr(t) for t in x.time_signature_changes], [repr(t) for t in x.key_signature_changes],
                [a.tolist() for a in x.get_tempo_changes()])
    if isinstance(x, dict):
        return [(k, plain(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple, set)):
        return [plain(v) for v in x]
    return x


def build_track(s):
    b = gu.MidiGraphBuilder()
    return b.build_sequence(s)


def build_piece(p, per):
    b = gu.MidiGraphBuilder()
    b.build(p, is_per_instrument=per)
    return list(b.sub_graphs)


OTHER = lambda: tm.track([(70, 0.25, 9.0, 5)])
TQ = [
    ("len", len), ("iter", list), ("first", lambda s: s[0]), ("last", lambda s: s[-1]), ("notes", lambda s: list(s.notes)),
    ("drums", lambda s: list(s.drum_events)), ("pitches", lambda s: s.as_note_seq()), ("events", lambda s: list(s.get_midi_events())),
    ("quantized", lambda s: s.is_quantized()), ("repr", repr), ("str", str), ("truncate", lambda s: s.truncate(2.0)),
    ("slice", lambda s: s.slice(0.25, 2.25)), ("strict", lambda s: s.slice(0.0, 2.0, True)), ("cut", lambda s: s.cut(2)),
    ("split", lambda s: s.split(1.0)), ("splits", lambda s: s.split([2.0, 1.0])), ("skip", lambda s: s.split(1.0, True)),
    ("extract", lambda s: s.extract([0.5, 1.0, 2.0])), ("clone", lambda s: s.clone()), ("empty", lambda s: s.clone_empty()),
    ("add", lambda s: s + OTHER()), ("radd", lambda s: OTHER() + s), ("minstep", lambda s: s.calculate_min_step()),
    ("tolast", lambda s: s.truncate_to_last_event(1.0)), ("intervals", lambda s: s.compute_intervals(s.notes, [1.0, 2.0])),
    ("validate", lambda s: s.validate_instrument()), ("build", build_track),
    ("data", lambda s: gu.MidiGraphBuilder.compute_data(s, 0.2, False)), ("dataauto", lambda s: gu.MidiGraphBuilder.compute_data(s, 0.2, True, True)),
    ("tolerance", lambda s: gu.MidiGraphBuilder.compute_tolerance(s)), ("gaps", lambda s: gu.MidiGraphBuilder.instrument_time_differences(s).tolist()),
]
PQ = [
    ("len", len), ("keys", list), ("tracks", lambda p: p.num_track()), ("instruments", lambda p: p.num_instruments()),
    ("infos", lambda p: [i.instrument_num for i in p.instruments]), ("tempo", lambda p: p.initial_tempo()),
    ("len1", lambda p: p.instrument_midi_seq_len(1)), ("lenabsent", lambda p: p.instrument_midi_seq_len(77)),
    ("track", lambda p: p[1] if 1 in list(p) else None), ("badtrack", lambda p: p[128]), ("badtype", lambda p: p["1"]),
    ("ts0", lambda p: p.time_signature(0.0)), ("ts2", lambda p: p.time_signature(2.0)),
    ("ks1", lambda p: p.key_signature(1.0)), ("ks2", lambda p: p.key_signature(2.0)), ("tp1", lambda p: p.tempo_signature(1.0)),
    ("tp2", lambda p: p.tempo_signature(2.5)), ("slts", lambda p: list(p.slice_time_signatures())), ("sltsb", lambda p: list(p.slice_time_signatures(1.0))),
    ("slks", lambda p: list(p.slice_key_signatures(1.0))), ("sltp", lambda p: list(p.slice_tempo_signature(1.0))),
    ("sltpu", lambda p: list(p.slice_tempo_signature(None, False))), ("sltsu", lambda p: list(p.slice_time_signatures(None, False))),
    ("quantized", lambda p: p.is_quantized()), ("events", lambda p: p.get_all_sequence_events()), ("repr", repr), ("str", str),
    ("get", lambda p: p.get_track(1, "Some", 3, False) if 1 in list(p) else None), ("build", lambda p: build_piece(p, True)), ("whole", lambda p: build_piece(p, False)),
    ("pretty", lambda p: Reader.to_pretty_midi(p)), ("iter", lambda p: [k for k in p]),
]
NQ = [
    ("repr", repr), ("str", str), ("eq", lambda n: n == gu.MidiNote(60, 0.0, 1.0)), ("lt", lambda n: n < gu.MidiNote(60, 0.5, 1.0)),
    ("le", lambda n: n <= gu.MidiNote(60, 0.5, 1.0)), ("quantized", lambda n: n.is_quantized()), ("duration", lambda n: n.duration()),
    ("overlaps", lambda n: n.overlaps(gu.MidiNote(60, 0.5, 1.0))), ("overlapped", lambda n: gu.MidiNote(60, 0.5, 1.0).overlaps(n)),
    ("samples", lambda n: n.step_duration_in_samples()), ("steps", lambda n: n.compute_step_duration_in_seconds(4)),
    ("badsteps", lambda n: n.compute_step_duration_in_seconds(0)), ("quantize", lambda n: n.quantize(4)), ("quantize1", lambda n: n.quantize(1, 1.0)),
    ("badquantize", lambda n: n.quantize(99)), ("copy", lambda n: n.make_copy()), ("copysteps", lambda n: n.make_copy(2, 5)),
    ("seconds", lambda n: n.duration_in_seconds(90)), ("times", lambda n: (n.event_start_time, n.event_end_time)), ("instrument", lambda n: n.instrument),
]


# ------------------------------------------------------------------ what is queried
def tracks():
    for n in range(4):
        for w in itertools.permutations(range(4), n):
            yield [list(w), False, 0]
    for w in ([], [1], [0, 1], [2, 0, 1]):
        for drum, extra in ((True, 0), (False, 1), (False, 2), (True, 1), (True, 2)):
            yield [list(w), drum, extra]


def make_track(spec, num=1):
    w, drum, extra = spec
    s = tm.track([POOL[i] for i in w], drum, num=num, instrument=num)
    if extra:
        s.add_control_changes(CC(7, 100, 2.0, 1, num))
        s.add_control_changes(CC(64, 1, 0.5, 1, num))
        s.add_pitch_bends(PB(100, 1.5, num, 1))
    if extra == 2:
        s.quantize(4)
    return s


def pieces():
    sets = [[], [[[0, 1], False, 0]], [[[2, 0, 1], False, 1], [[1, 0], False, 2]], [[[1], False, 0], [[0, 2], True, 0], [[0, 3, 1], False, 0]]]
    for k in range(len(sets)):
        for sig in range(6):
            yield [sets[k], sig]


def make_piece(spec):
    tr, sig = spec
    # with one signature list given out of order
    kw = {}
    if sig in (1, 4):
        kw["time_signatures"] = [TS(2.0, 3, 4), TS(0.0, 4, 4), TS(1.0, 6, 8)] if sig == 1 else []
    if sig in (2, 4):
        kw["key_signatures"] = [KS(2.0, 3, 0), KS(0.0, 1, 1)] if sig == 2 else []
    if sig in (3, 4):
        kw["tempo_signatures"] = [TP(1.5, 90.0, 100), TP(0.0, 60.0, 100)] if sig == 3 else []
    p = Piece(midi_seq=[make_track(t, i + 1) for i, t in enumerate(tr)] or None, **kw)
    if sig == 5:
        p.add_time_signatures(TS(1.0, 3, 4))
        p.add_key_signatures(KS(1.0, 2, 1))
        p.add_tempo_signature(TP(1.0, 99.0, 50))
    return p


def notes():
    for s, e in ((0.0, 1.0), (0.3, 0.45), (2.0, 7.75)):
        for q in (None, (0, 4), (3, 5)):
            yield [s, e, q, 60]
        yield [s, e, None, 127]


def make_note(spec):
    s, e, q, p = spec
    k = dict(quantized_start_step=q[0], quantized_end_step=q[1]) if q else {}
    return gu.MidiNote(p, s, e, velocity=33, instrument=4, program=9, **k)


def cases(tier):
    th = tier == "thorough"
    for t in tracks():
        yield ["track", t, 2]
        yield ["few", t, 3]
    if th:
        for t in tracks():
            if len(t[0]) >= 2:
                yield ["track", t, 3]
    for p in pieces():
        yield ["piece", p, 3 if th else 2]
    for n in notes():
        yield ["note", n, 3]


FEW = ("pitches", "split", "intervals", "data", "add", "cut", "extract", "build")
KIND = {"few": (make_track, track_state, [q for q in TQ if q[0] in FEW]), "track": (make_track, track_state, TQ), "piece": (make_piece, piece_state, PQ), "note": (make_note, note_state, NQ)}


def run_case(case, rec):
    kind, spec, depth = case
    make, state, Q = KIND[kind]
    with contextlib.redirect_stdout(io.StringIO()):
        before = state(make(spec))
        rec.check(state(make(spec)) == before, "model", "making the object again differs")
        fresh = {n: answer(f, make(spec)) for n, f in Q}
        for word in itertools.product(Q, repeat=depth):
            x = make(spec)
            names = [n for n, _ in word]
            for i, (n, f) in enumerate(word):
                got = answer(f, x)
                rec.step()
                rec.check(got == fresh[n], "answer", lambda: f"{kind} {spec} {names[:i + 1]}: {got}, asked first {fresh[n]}")
                now = state(x)
                rec.check(now == before, "changed", lambda: f"{kind} {spec} after {names[:i + 1]}: {now}, before {before}")
                if rec.fails:
                    return
        rec.state((kind, repr(spec)))
        for n in fresh:
            rec.outcome((n, repr(fresh[n])))


def answer(f, x):
    e, r = raises(f, x)
    return plain(e if e is not None else r)
