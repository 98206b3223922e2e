"""C31: writing and reading back all small pieces."""
import contextlib
import io
import itertools
import math
import os
from .. import nmodel as nm, tmodel as tm
from ..core import raises

PROP, LEVEL = "C31", "model_checking"
BOUNDS = {
    "quick": "all single tracks of 1..3 of 8 notes (off the tick grid) x 4 tempo histories x 2 resolutions; all pairs of 10 instruments and 5 contents; every program, key and denominator; all words of up to 3 of 9 signature additions; all placements of up to 2 of 8 controller and bend events; 1..20 tracks",
    "thorough": "single tracks of up to 5 notes x 4 tempo histories x 3 resolutions, words of up to 4 signature additions, up to 3 controller and bend events",
}
ASSUMPTIONS = ["notes have positive velocity, last at least one tick and notes of one pitch on one track do not overlap (MIDI cannot express the others)",
               "no range is given", "values that a MIDI file can hold (programs, controllers and values up to 127)",
               "tempos of 6 to 1000 quarters a minute, changes at least a few ticks apart or at the same moment"]
#        pitch start end vel; notes of one pitch are disjoint
NOTES = [(60, 0.0, 1.0, 80), (60, 1.0, 1.5, 90), (64, 0.1, 2.0, 127), (67, 1 / 3, 0.7, 1), (0, 0.5, 0.51, 64), (127, 2.001, 7.77, 33),
         (60, 3.0, 3.25, 100), (64, 2.0, 2.5, 50)]
TEMPO = [[], [(0.0, 90.0)], [(1.0, 60.0)], [(0.0, 150.0), (0.5, 45.5), (2.2, 240.0)]]
INST = [(0, False, "Piano"), (0, True, "Kit"), (5, False, ""), (127, False, "x"), (9, False, "Nine"), (24, True, "Kit 2"),
        (5, False, "other"), (64, False, "Sax"), (0, False, "Grand"), (1, False, "Bright")]
CONT = [[0, 1], [2, 3, 5], [], [4], [6, 7, 0, 3]]
SIGS = [("t", 0.0, 3, 4), ("t", 1.0, 6, 8), ("t", 9.0, 7, 16), ("k", 0.0, 9, 1), ("k", 1.0, 2, 0), ("k", 12.5, 11, 1),
        ("p", 1.0, 60.0), ("p", 2.0, 120.0), ("p", 1.0, 77.7)]
EVS = [("c", 0.0, 7, 100), ("c", 0.5, 64, 127), ("c", 1.0, 0, 0), ("c", 30.0, 10, 1), ("b", 0.0, -8192), ("b", 0.6, 8191), ("b", 1.0, 0), ("b", 40.0, -1)]


def setup():
    global MidiReader, Piece, TS, TP, KS, CC, PB
    import warnings
    import logging
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    from neural_graph_composer.midi_reader import MidiReader
    from neural_graph_composer.midi.midi_sequences import MidiNoteSequences as Piece
    from neural_graph_composer.midi.midi_time_signature import MidiTimeSignature as TS, MidiTempoSignature as TP
    from neural_graph_composer.midi.midi_key_signature import MidiKeySignature as KS
    from neural_graph_composer.midi.midi_control_change import MidiControlChange as CC
    from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend as PB


def cases(tier):
    th = tier == "thorough"
    for n in range(1, (5 if th else 3) + 1):
        for p in itertools.combinations(range(8), n):
            for te in range(4):
                for res in ((480, 96, 220) if th else (480, 96)):
                    yield ["notes", list(p), te, res]
    for a in range(len(INST)):
        yield ["pair", a]
    for prog in range(128):
        yield ["program", prog]
    for n in range(1, (4 if th else 3) + 1):
        for w in itertools.product(range(len(SIGS)), repeat=n):
            yield ["sigs", list(w)]
    for n in range(1, (3 if th else 2) + 1):
        for w in itertools.product(range(len(EVS)), repeat=n):
            yield ["events", list(w)]
    for k in range(12):
        yield ["keys", k]
    for d in range(7):
        yield ["den", d]
    for n in range(1, 21):
        yield ["many", n]


def piece(tracks, res, sigs=()):
    p = Piece(resolution=res)
    for i, (num, drum, name, notes, evs) in enumerate(tracks):
        k = p.create_track(i, num, name, drum)
        for s in notes:
            n = tm.note(s, drum, num)
            p[k].add_note(n)
        for e in evs:
            if e[0] == "c":
                p[k].add_control_changes(CC(e[2], e[3], cc_time=e[1], program=num, instrument=i, is_drum=drum))
            else:
                p[k].add_pitch_bends(PB(e[2], midi_time=e[1], program=num, instrument=i, is_drum=drum))
    for s in sigs:
        if s[0] == "t":
            p.add_time_signatures(TS(s[1], numerator=s[2], denominator=s[3]))
        elif s[0] == "k":
            p.add_key_signatures(KS(s[1], midi_key=s[2], midi_mode=s[3]))
        else:
            p.add_tempo_signature(TP(s[1], qpm=s[2], resolution=res))
    return p


def snap(p):
    return ([(k, p[k].instrument.instrument_num, p[k].instrument.is_drum, p[k].instrument.name, tm.atts(p[k]), p[k].total_time,
              [tm.cc_att(c) for c in p[k].control_changes], [(b.amount, b.midi_time, b.program, b.instrument, b.is_drum) for b in p[k].pitch_bends])
             for k in p], p.resolution, p.total_time, p.filename,
            [(s.midi_time, s.numerator, s.denominator) for s in p.time_signatures],
            [(s.midi_time, s.mode, s.midi_key) for s in p.key_signatures],
            [(s.midi_time, s.qpm, s.resolution) for s in p.tempo_signatures])


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return raises(fn, *a, **k)


def in_force(lst, x):
    return [e[1:] for e in lst if e[0] <= x][-1]


def trip(tracks, res, sigs, rec, ctx):
    p = piece(tracks, res, sigs)
    before = snap(p)
    data = []
    for f in ("a.mid", "b.mid"):
        if os.path.exists(f):
            os.unlink(f)
        e, _ = quiet(MidiReader.write, p, os.path.abspath(f))
        rec.step()
        rec.check(e is None, "write-raises", lambda: f"{ctx}: {e!r}")
        data.append(open(f, "rb").read())
        rec.check(snap(p) == before, "piece-modified", lambda: f"{ctx}: {snap(p)} was {before}")
    rec.check(data[0] == data[1], "not-deterministic", lambda: f"{ctx}: two files differ")
    # the in-memory form is the same file, and reads as the same piece
    e, pm = quiet(MidiReader.to_pretty_midi, p)
    rec.check(e is None, "convert-raises", lambda: f"{ctx}: {e!r}")
    e, mf = quiet(pm.serialize)
    rec.check(e is None, "serialize-raises", lambda: f"{ctx}: {e!r}")
    buf = io.BytesIO()
    mf.save(file=buf)
    rec.check(buf.getvalue() == data[0], "serialize-differs", lambda: f"{ctx}: serialized {list(map(list, mf.tracks))}")
    rec.check(snap(p) == before, "piece-modified", lambda: f"{ctx}: {snap(p)} was {before}")
    e, q = quiet(MidiReader.read, os.path.abspath("a.mid"))
    rec.check(e is None, "read-raises", lambda: f"{ctx}: {e!r}")
    rec.step()
    rec.check(q.resolution == res, "resolution", lambda: f"{ctx}: {q.resolution}")
    tempos = [(0.0, 120.0)]
    for s in sigs:
        if s[0] == "p":
            tempos.append((s[1], s[2]))
    slow = min(x[1] for x in tempos)
    tick = 60.0 / (slow * res) + 1e-5
    close = lambda a, b: abs(float(a) - float(b)) <= tick
    want = sorted((num, drum, name, sorted(notes), evs) for num, drum, name, notes, evs in tracks if notes)
    got = []
    for k in q:
        t = q[k]
        if t.notes:
            got.append((t.instrument.instrument_num, t.instrument.is_drum, t.instrument.name,
                        sorted((int(n.pitch), float(n.start_time), float(n.end_time), int(n.velocity)) for n in t.notes), t))
    got.sort(key=lambda g: g[:4])
    rec.check(len(got) == len(want), "tracks", lambda: f"{ctx}: {len(got)} tracks read, {len(want)} written")
    # tracks of one instrument and name are told apart by their notes, up to a tick
    for w in want:
        ok = [g for g in got if g[:2] == w[:2] and (not w[2] or g[2] == w[2]) and len(g[3]) == len(w[3]) and
              all(a[0] == b[0] and a[3] == b[3] and close(a[1], b[1]) and close(a[2], b[2]) for a, b in zip(g[3], w[3]))]
        rec.check(ok, "notes", lambda: f"{ctx}: wrote {w}, read {[g[:4] for g in got]}")
        g = ok[0]
        got.remove(g)
        t = g[4]
        rec.check(all(n.is_drum == w[1] and n.program == w[0] for n in t.notes), "note-kind", lambda: f"{ctx}: {tm.atts(t)}")
        cc = sorted((c.cc_number, c.cc_value, float(c.cc_time)) for c in t.control_changes)
        pb = sorted((b.amount, float(b.midi_time)) for b in t.pitch_bends)
        wc = sorted((e[2], e[3], e[1]) for e in w[4] if e[0] == "c")
        wb = sorted((e[2], e[1]) for e in w[4] if e[0] == "b")
        rec.check(len(cc) == len(wc) and all(a[:2] == b[:2] and close(a[2], b[2]) for a, b in zip(cc, wc)), "controllers", lambda: f"{ctx}: {cc}, expected {wc}")
        rec.check(len(pb) == len(wb) and all(a[0] == b[0] and close(a[1], b[1]) for a, b in zip(pb, wb)), "bends", lambda: f"{ctx}: {pb}, expected {wb}")
    # signatures in force, in the middle between and beyond all changes
    a, b = before, snap(q)
    pts = sorted({e[0] for l in a[4:] for e in l})
    pts = [(x + y) / 2 for x, y in zip(pts, pts[1:])] + [x + 2 * tick for x in pts] + [pts[-1] + 5]
    for x in pts:
        for i, name in ((4, "time-signature"), (5, "key-signature")):
            g, w = in_force(b[i], x), in_force(a[i], x)
            rec.check(g == w, name, lambda: f"{ctx}: at {x} {g}, expected {w}")
        g, w = in_force(b[6], x)[0], in_force(a[6], x)[0]
        rec.check(math.isclose(g, w, rel_tol=2e-5), "tempo", lambda: f"{ctx}: at {x} {g}, expected {w}")
    for i in (4, 5):
        g, w = [e for e in b[i]], [e for e in a[i]]
        rec.check(len(g) == len(w) and all(x[1:] == y[1:] and close(x[0], y[0]) for x, y in zip(g, w)), "signature-list", lambda: f"{ctx}: {g}, expected {w}")
    # what was read is written again as it was, however often
    was = snap(q)
    e, _ = quiet(MidiReader.write, q, os.path.abspath("b.mid"), do_overwrite=True)
    rec.check(e is None and snap(q) == was, "rewrite-raises", lambda: f"{ctx}: {e!r}")
    e, r = quiet(MidiReader.read, os.path.abspath("b.mid"))
    rec.step(2)
    r.filename = q.filename
    rec.check(e is None and snap(r) == was, "rewriting-changes", lambda: f"{ctx}: read {snap(r)}, from the first file {was}")
    rec.state(repr(before))
    rec.outcome(data[0])


def export(notes, rec, ctx):
    """a single track written by itself"""
    for num, drum, name in INST[:4]:
        for order in (notes, notes[::-1]):
            t = tm.track(order, drum, num, 480, num, name or "n")
            before = tm.atts(t), t.total_time
            e, _ = quiet(t.to_midi_file, os.path.abspath("t.mid"))
            rec.check(e is None, "export-raises", lambda: f"{ctx}: {e!r}")
            rec.check((tm.atts(t), t.total_time) == before, "track-modified", lambda: f"{ctx}")
            e, q = quiet(MidiReader.read, os.path.abspath("t.mid"))
            rec.check(e is None, "export-read-raises", lambda: f"{ctx}: {e!r}")
            rec.step(2)
            got = [(q[k].instrument.instrument_num, q[k].instrument.is_drum, sorted((int(n.pitch), float(n.start_time), float(n.end_time), int(n.velocity)) for n in q[k].notes)) for k in q if q[k].notes]
            tick = 0.5 / 220 + 1e-6
            ok = len(got) == 1 and got[0][:2] == (num, drum) and len(got[0][2]) == len(notes) and all(
                a[0] == b[0] and a[3] == b[3] and abs(a[1] - b[1]) <= tick and abs(a[2] - b[2]) <= tick for a, b in zip(got[0][2], sorted(notes)))
            rec.check(ok, "export", lambda: f"{ctx}: wrote {num, drum, notes}, read {got}")


def run_case(case, rec):
    kind = case[0]
    ctx = str(case)
    if kind == "notes":
        _, sel, te, res = case
        if te == 0 and res == 480:
            export([NOTES[i] for i in sel], rec, ctx)
        sigs = [("p", t, q) for t, q in TEMPO[te]]
        notes = [NOTES[i] for i in sel]
        for order in (notes, notes[::-1]):
            trip([(3, False, "Some", order, [])], res, sigs, rec, ctx)
    elif kind == "pair":
        a = case[1]
        for b in range(len(INST)):
            for x, y in itertools.product(range(len(CONT)), repeat=2):
                if not CONT[x] and not CONT[y]:
                    continue
                trip([INST[a] + ([NOTES[i] for i in CONT[x]], []), INST[b] + ([NOTES[i] for i in CONT[y]], [])], 480, [], rec, f"{ctx} {b} {x} {y}")
    elif kind == "program":
        for drum in (False, True):
            trip([(case[1], drum, "P", [NOTES[0]], [])], 480, [], rec, ctx)
    elif kind == "sigs":
        trip([(3, False, "Some", [NOTES[0], NOTES[2], NOTES[5]], [])], 480, [SIGS[i] for i in case[1]], rec, ctx)
    elif kind == "events":
        evs = [EVS[i] for i in case[1]]
        for sigs in ([], [("p", 0.4, 77.0)]):
            trip([(3, False, "Some", [NOTES[0], NOTES[2]], evs), (4, False, "Other", [NOTES[3]], evs[:1]), (0, True, "Kit", [NOTES[6]], evs[::-1])], 480, sigs, rec, ctx)
    elif kind == "keys":
        for mode in (0, 1):
            for t in (0.0, 1.0):
                trip([(3, False, "Some", [NOTES[0]], [])], 480, [("k", t, case[1], mode)], rec, ctx)
    elif kind == "den":
        for num in (1, 2, 3, 4, 5, 7, 12, 31, 255):
            for t in (0.0, 1.0):
                trip([(3, False, "Some", [NOTES[0]], [])], 480, [("t", t, num, 2 ** case[1])], rec, ctx)
    elif kind == "many":
        trip([(i, i % 5 == 3, f"T{i}", [NOTES[i % 8]], [EVS[i % 8]]) for i in range(case[1])], 480, [], rec, ctx)
