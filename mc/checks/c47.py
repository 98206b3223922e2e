"""C47: tracks and pieces made from all small collections of parts."""
import itertools
from collections import Counter
from .. import nmodel as nm, tmodel as tm
from ..core import raises

PROP, LEVEL = "C47", "model_checking"
BOUNDS = {
    "quick": "tracks: every list of up to 3 of 5 notes and up to 2 of 3 drum notes x 7 instruments x 3 resolutions, used twice and changed afterwards; pieces: every list of up to 3 of 7 tracks, every list of up to 3 of 5 signatures of each kind in any order (also twice the same), two pieces made of the same parts; tracks of every instrument number 0..255 with every drum flags of three notes; 5 kinds of reader; every single argument of a wrong kind out of 12 values",
    "thorough": "lists of up to 4 notes, 4 tracks and 5 signatures",
}
ASSUMPTIONS = ["drum notes given apart are asked for on drum tracks only", "the text of generated names is not checked"]
INSTR = [None, 0, 1, 255, ("info", 1, False), ("info", 1, True), ("info", 9, True)]
TRACKS = [(1, False, 220, [0], []), (2, False, 220, [1, 3], [5]), (1, False, 220, [3, 2], [7]), (2, False, 220, [], []), (0, True, 220, [4, 1], []),
          (1, False, 96, [1], []), (2, True, 220, [0], [])]
TIMES = [0.0, 2.0, 1.0, 0.5, 1.0]
Q = [0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0]
WRONG = [5, 2.5, "x", b"x", (), {}, object, [1], ["x"], [None], True, 1j]


def setup():
    global Piece, Track, TS, TP, KS, KT, Info
    import logging
    logging.disable(logging.CRITICAL)
    from neural_graph_composer.midi.midi_sequences import MidiNoteSequences as Piece
    from neural_graph_composer.midi.midi_sequence import MidiNoteSequence as Track
    from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo as Info
    from neural_graph_composer.midi.midi_time_signature import MidiTimeSignature as TS, MidiTempoSignature as TP
    from neural_graph_composer.midi.midi_key_signature import MidiKeySignature as KS, KeySignatureType as KT


def cases(tier):
    th = tier == "thorough"
    for n in range((4 if th else 3) + 1):
        for w in itertools.product(range(5), repeat=n):
            yield ["track", list(w)]
        for w in itertools.product(range(len(TRACKS)), repeat=n):
            yield ["tracks", list(w)]
    for n in range((5 if th else 3) + 1):
        for w in itertools.product(range(5), repeat=n):
            yield ["sigs", list(w)]
    for n in range(256):
        yield ["number", n]
    yield ["order"]
    yield ["wrong"]
    yield ["reader"]


def full(t):
    return (tm.atts(t), t.total_time, t.resolution, (t.instrument.instrument_num, t.instrument.name, t.instrument.is_drum),
            [tm.cc_att(c) for c in t.control_changes])


def mk(i):
    num, drum, res, notes, cc = TRACKS[i]
    t = tm.track([tm.POOL[k] for k in notes], drum, num, res, num)
    from neural_graph_composer.midi.midi_control_change import MidiControlChange as CC
    for c in cc:
        t.add_control_changes(CC(c, 3, cc_time=1.0, program=num, instrument=num, is_drum=drum))
    return t


def one_track(w, rec):
    for spec in INSTR:
        drum = isinstance(spec, tuple) and spec[2]
        for d in ([(), (1,), (3, 0)] if drum else [None, (1,)]):
            for res in (220, 96, 480):
                ctx = lambda: f"notes {w} drum notes {d} instrument {spec} resolution {res}"
                notes = [tm.note(tm.POOL[i], drum) for i in w]
                dn = None if d is None else [tm.note(tm.POOL[i], drum) for i in d]
                given = list(notes), list(dn or [])
                want = [nm.att(n) for n in notes + (dn if drum else [])]
                out = []
                for again in range(2):
                    kw = dict(instrument=tm.info(spec[1], spec[2]) if isinstance(spec, tuple) else spec, resolution=res)
                    if dn is not None:
                        kw["drum_events"] = dn
                    e, t = raises(Track, notes, **kw)
                    rec.step()
                    rec.check(e is None, "refused", lambda: f"{ctx()}: {e!r}")
                    rec.eq(tm.atts(t), want, "contents", ctx())
                    rec.eq((len(t), len(t.drum_events)), (len(want), len(want) if drum else 0), "length", ctx())
                    rec.check(nm.close(t.total_time, tm.latest(want)), "total-time", lambda: f"{ctx()}: {t.total_time}")
                    num = spec[1] if isinstance(spec, tuple) else spec or 0
                    rec.eq((t.instrument.instrument_num, t.instrument.is_drum, t.resolution), (num, drum, res), "description", ctx())
                    rec.eq((len(t.control_changes), len(t.pitch_bends), t.total_quantized_steps, t.is_quantized() and bool(want)), (0, 0, 0, False), "fresh", ctx())
                    out.append(t)
                # what is given and what is made go their own ways
                x = tm.note((70, 9.0, 11.0, 5), drum)
                out[0].append(x)
                rec.check(all(a is b for a, b in zip(notes, given[0])) and len(notes) == len(given[0]) and len(dn or []) == len(given[1]),
                          "given-changed", lambda: f"{ctx()}: the given list has {len(notes)}, {len(dn or [])} notes")
                rec.eq(tm.atts(out[1]), want, "shared", ctx())
                notes.append(x)
                if dn is not None:
                    dn.append(x)
                notes[:1] = []
                rec.eq(tm.atts(out[1]), want, "follows-given", ctx())
                rec.eq(tm.atts(out[0]), want + [nm.att(x)], "follows-given", ctx())
                e, _ = raises(setattr, out[1], "resolution", "96")
                rec.check(isinstance(e, TypeError) and out[1].resolution == res, "resolution", lambda: f"{ctx()}: {e!r}")
                e, _ = raises(setattr, out[1], "resolution", 960)
                rec.check(e is None and out[1].resolution == 960, "resolution", lambda: f"{ctx()}: {e!r}")
                rec.eq(tm.atts(out[1]), want, "resolution-moves-notes", ctx())
    # from a list alone
    notes = [tm.note(tm.POOL[i]) for i in w]
    want = [nm.att(n) for n in notes]
    a, b = Track.from_notes(notes), Track.from_notes(notes)
    p, q = Piece(resolution=220), Piece(resolution=220)
    p[3] = notes
    q.set_sequence(3, notes)
    made = [a, b, p[3], q[3]]
    rec.step(4)
    for i, t in enumerate(made):
        rec.eq(tm.atts(t), want, "from-list", f"{w} {i}")
        rec.check(nm.close(t.total_time, tm.latest(want)), "from-list-total", lambda: f"{w}: {t.total_time}")
    for i, t in enumerate(made):
        t.append(tm.note((70 + i, 9.0, 11.0, 5)))
        rec.eq([len(x) for x in made] + [len(notes)], [len(w) + (j <= i) for j in range(4)] + [len(w)], "list-shared", f"{w} after adding to {i}")
    rec.state(("track", tuple(w)))


def pieces(w, rec):
    objs = [mk(i) for i in w]
    before = [full(t) for t in objs]
    want, res, bad = {}, {}, False
    for i, t in zip(w, objs):
        num, drum, r = TRACKS[i][:3]
        bad |= num in res and res[num] != (r, drum)
        res.setdefault(num, (r, drum))
        want.setdefault(num, []).extend(tm.atts(t))
    count = Counter(TRACKS[i][0] for i in w)
    made = []
    for again in range(2):
        arg = objs[0] if len(objs) == 1 and again else objs
        e, p = raises(Piece, midi_seq=arg, filename="f.mid", resolution=96)
        rec.step(len(w) + 1)
        rec.check([full(t) for t in objs] == before and len(objs) == len(w), "tracks-changed",
                  lambda: f"{w}: given {before}, now {[full(t) for t in objs]}")
        if bad:
            rec.check(isinstance(e, ValueError), "mixed-accepted", lambda: f"{w}: {e!r}")
            continue
        rec.check(e is None, "refused", lambda: f"{w}: {e!r}")
        rec.eq((list(p), p.num_track(), p.filename, p.resolution), (sorted(want), len(want), "f.mid", 96), "piece", f"{w}")
        for k in want:
            got = tm.atts(p[k])
            exp = sorted(want[k], key=tm.key) if count[k] > 1 else want[k]
            rec.check(Counter(got) == Counter(exp) and (count[k] == 1 and got == exp or count[k] > 1 and tm.is_sorted(got)), "contents",
                      lambda: f"{w} track {k}: {got}, expected {exp}")
            rec.check(nm.close(p[k].total_time, tm.latest(exp)), "total-time", lambda: f"{w} {k}: {p[k].total_time}")
            rec.eq((p[k].instrument.instrument_num, p[k].instrument.is_drum, p[k].resolution), (k, res[k][1], res[k][0]), "description", f"{w} {k}")
        rec.eq([(i.instrument_num, i.is_drum) for i in p.instruments], [(k, res[k][1]) for k in sorted(want)], "instruments", f"{w}")
        made.append(p)
    if made:
        # a track added to one piece is none of the other's, nor of the list's
        p, q = made
        p.create_track(77, 5, "new", False)
        rec.eq((list(q), len(objs)), (sorted(want), len(w)), "shared", f"{w}")
    rec.state(("tracks", tuple(w)))


def sig(kind, k, i):
    t = TIMES[k]
    if kind == "t":
        return TS(t, numerator=1 + i, denominator=4), (1 + i, 4)
    if kind == "k":
        return KS(t, midi_key=i, midi_mode=i % 2), (KT.MINOR if i % 2 else KT.MAJOR, i)
    return TP(t, qpm=60.0 + i, resolution=100), (60 + i, 100)


DEF = {"t": (4, 4), "p": (120, 480), "k": None}
NAME = {"t": "time_signatures", "k": "key_signatures", "p": "tempo_signatures"}


def ask(p, kind, x):
    return tuple({"t": p.time_signature, "k": p.key_signature, "p": p.tempo_signature}[kind](x))


def listed(p, kind):
    return {"t": p.slice_time_signatures, "k": p.slice_key_signatures, "p": p.slice_tempo_signature}[kind]()


def signatures(w, rec):
    for kind in "tkp":
        pairs = [sig(kind, k, i) for i, k in enumerate(w)]
        lst = [a for a, _ in pairs]
        given = list(lst)
        model = sorted(((TIMES[k], v) for k, (_, v) in zip(w, pairs)), key=lambda e: e[0])
        ctx = lambda: f"{kind} {[TIMES[k] for k in w]}"
        made = []
        for again in range(2):
            e, p = raises(Piece, **{NAME[kind]: lst})
            rec.check(e is None, "sigs-refused", lambda: f"{ctx()}: {e!r}")
            made.append(p)
        def verify(p, model, what):
            for x in Q:
                rec.step()
                want = DEF[kind]
                for t, v in model:
                    if t <= x:
                        want = v
                if want is not None:
                    rec.eq(ask(p, kind, x), want, what, f"{ctx()} at {x}")
            got = [s.midi_time for s in listed(p, kind)]
            rec.eq(got, [t for t, _ in model if kind != "p" or t > 0], what + "-listed", ctx())
            for other in "tkp":
                if other != kind and DEF[other]:
                    rec.eq(ask(p, other, 1.0), DEF[other], what + "-default", f"{ctx()} {other}")
        verify(made[0], model, "in-force")
        # an addition to one of them is its own
        extra, v = sig(kind, 1, 9)
        extra.midi_time = 1.5
        {"t": made[0].add_time_signatures, "k": made[0].add_key_signatures, "p": made[0].add_tempo_signature}[kind](extra)
        rec.check(len(lst) == len(given) and all(a is b for a, b in zip(lst, given)), "list-changed", lambda: f"{ctx()}: the given list is {lst}")
        verify(made[1], model, "shared")
        verify(made[0], sorted(model + [(1.5, v)], key=lambda e: e[0]), "after-addition")
        lst.clear()
        verify(made[1], model, "follows-list")
    rec.state(("sigs", tuple(w)))


class Reader:
    def __init__(self, what):
        self.what = what

    def read(self, path):
        if isinstance(self.what, Exception):
            raise self.what
        return self.what


def run_case(case, rec):
    kind = case[0]
    if kind == "track":
        one_track(case[1], rec)
    elif kind == "tracks":
        pieces(case[1], rec)
    elif kind == "sigs":
        signatures(case[1], rec)
    elif kind == "number":
        # notes are kept whatever their own drum flags, on any instrument
        n = case[1]
        for flags in itertools.product((False, True), repeat=3):
            for drum in (None, False, True):
                notes = [tm.note(tm.POOL[i], f) for i, f in zip((3, 0, 1), flags)]
                want = [nm.att(x) for x in notes]
                e, t = raises(Track, notes, instrument=n if drum is None else Info(n, "some", drum))
                rec.step()
                ctx = lambda: f"instrument {n} drum {drum} flags {flags}"
                rec.check(e is None, "refused", lambda: f"{ctx()}: {e!r}")
                rec.eq([nm.att(x) for x in (t.drum_events if drum else t.notes)], want, "number-contents", ctx())
                rec.eq((t.instrument.instrument_num, t.instrument.is_drum, len(t)), (n, bool(drum), 3), "number-description", ctx())
                rec.check(nm.close(t.total_time, tm.latest(want)), "number-total", lambda: f"{ctx()}: {t.total_time}")
                p = Piece(midi_seq=[t])
                if n < 128:
                    rec.eq((list(p), tm.atts(p[n])), ([n], tm.atts(t)), "number-piece", ctx())
                if not drum:
                    rec.eq([nm.att(x) for x in Track.from_notes(notes).notes], want, "number-from-notes", ctx())
        rec.state(("number", n))
    elif kind == "order":
        # tracks compare by instrument number, and those of one number one way only
        ts = [mk(i) for i in range(len(TRACKS))] + [mk(0)]
        for a, b in itertools.product(ts, repeat=2):
            rec.step()
            x, y = a.instrument.instrument_num, b.instrument.instrument_num
            if x != y:
                rec.eq(a < b, x < y, "order", f"{x} {y}")
            elif a is not b:
                rec.eq((a < b) + (b < a), 1, "order-same", f"{x} {y}")
            else:
                rec.eq(a < b, False, "order-self", f"{x}")
        e, _ = raises(lambda: ts[0] < 5)
        rec.check(isinstance(e, TypeError), "order-foreign", lambda: repr(e))
        for n in range(5):
            for l in itertools.product(range(3), repeat=n):
                for k, f in ((lambda x: x, "up"), (lambda x: -x, "down")):
                    rec.step()
                    rec.eq(Piece.is_sorted(list(l), k), all(k(a) <= k(b) for a, b in zip(l, l[1:])), "is-sorted", f"{l} {f}")
    elif kind == "wrong":
        ok_list = lambda cls: (lambda v: v is None or isinstance(v, list) and all(isinstance(x, cls) for x in v))
        for arg, fine in (("notes", lambda v: isinstance(v, list)), ("drum_events", lambda v: isinstance(v, list)),
                          ("instrument", lambda v: isinstance(v, int)), ("resolution", lambda v: isinstance(v, int)), ("is_debug", lambda v: isinstance(v, bool))):
            for v in WRONG:
                if not fine(v):
                    e, _ = raises(Track, **{arg: v})
                    rec.step()
                    rec.check(isinstance(e, (ValueError, TypeError)), "track-accepts", lambda: f"{arg}={v!r}: {e!r}")
        from neural_graph_composer.midi.midi_note import MidiNote
        for arg, fine in (("filename", lambda v: isinstance(v, str)), ("resolution", lambda v: isinstance(v, int)), ("is_debug", lambda v: isinstance(v, bool)),
                          ("midi_seq", ok_list(Track)), ("time_signatures", ok_list(TS)), ("key_signatures", ok_list(KS)), ("tempo_signatures", ok_list(TP))):
            for v in WRONG + [[TS(0.0), KS(0.0)], [KS(0.0), TP(0.0)], [TP(0.0), TS(0.0)], [mk(0), TS(0.0)], TS(0.0), [mk(0), None], (mk(0),), [tm.note(tm.POOL[0])]]:
                if not fine(v):
                    e, _ = raises(Piece, **{arg: v})
                    rec.step()
                    rec.check(isinstance(e, (ValueError, TypeError)), "piece-accepts", lambda: f"{arg}={v!r}: {e!r}")
    elif kind == "reader":
        for what in (mk(0), [mk(0), mk(1)], [mk(0), mk(2)], [], Piece(midi_seq=[mk(1), mk(4)], filename="old"), OSError("x"), ValueError("y"), 5, [5]):
            e, p = raises(Piece.from_file, "some.mid", Reader(what))
            rec.step()
            if isinstance(what, (Exception, int)) or what == [5]:
                rec.check(isinstance(e, (ValueError, TypeError)), "reader-failure", lambda: f"{what!r}: {e!r}")
                continue
            rec.check(e is None and p.filename == "some.mid", "reader", lambda: f"{what!r}: {e!r}")
            q = what if isinstance(what, Piece) else Piece(midi_seq=what)
            rec.eq([(k, full(p[k])) for k in p], [(k, full(q[k])) for k in q], "reader-contents", f"{what!r}")
