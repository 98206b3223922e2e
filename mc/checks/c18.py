"""C18: names, frequencies, step durations and JSON descriptions of notes.

The whole finite domain is enumerated: every pitch in every spelling (letter
case, sharps and flats up to two, both typographies), every pitch name and
octave, every pair of steps on every grid, and every JSON document of a
bounded shape with notes at every subset of its places.
"""
import itertools
import json
import math
from decimal import Decimal
from fractions import Fraction

from mc import nmodel as nm
from mc.core import raises

PROP, LEVEL = "C18", "exploration"
BOUNDS = {
    "quick": "all 128 pitches x 2 letter cases x 10 accidentals; 12 pitch names x 11 octaves; all pitches in pairs; "
             "all 2^7 subsets of the arguments of a named note; steps 0..40 on 22 grids, both ends; all JSON documents "
             "of 4 places x {note, short note, other object, scalar} in 6 shapes, as text and bytes",
    "thorough": "as quick with steps 0..300 on 51 grids, and JSON documents of 5 places",
}
ASSUMPTIONS = ["pitch names carry their octave", "pitch_to_freq takes the twelve sharp names of its table"]

LETTER = {"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}
ACC = {"": 0, "#": 1, "♯": 1, "b": -1, "♭": -1, "##": 2, "bb": -2, "♯♯": 2, "♭♭": -2, "!": -1}
NAMES = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"]
DEF = dict(velocity=127, program=0, instrument=0, is_drum=False)
ARGS = dict(velocity=[64, 0], program=[3, 255], instrument=[5, 127], is_drum=[True])
GRIDS = [1, 2, 3, 4, 6, 7, 8, 12, 16, 24, 32, 64, 96, 100, 128, 192, 220, 256, 320, 480, 960, 1600]


def setup():
    global MidiNote, Dec
    from neural_graph_composer.midi.midi_note import MidiNote, MidiNoteJSONDecoder as Dec


def cases(tier):
    th = tier == "thorough"
    for p in range(128):
        yield ["name", p]
    for o in range(-1, 10):
        yield ["pitchfreq", o]
    yield ["freqs"]
    for k in range(0, 128, 13):
        yield ["args", k]
    top = 300 if th else 40
    for sps in (sorted(set(range(1, 41)) | set(GRIDS)) if th else GRIDS):
        yield ["steps", sps, top]
    n = 5 if th else 4
    for shape in range(6):
        for first in range(4):
            yield ["json", shape, first, n]


def close(a, b):
    return math.isclose(a, b, rel_tol=1e-12)


def freq(p):
    return 440.0 * 2.0 ** ((p - 69) / 12)


DATA = [
    dict(pitch=60, start_time=0.0, end_time=1.0),
    dict(pitch=0, start_time=0.25, end_time=2, program=7, instrument=3, velocity=1, voice=2, numerator=3,
         denominator=8, is_drum=True, quantized_start_step=0, quantized_end_step=8),
]
NOTE = [lambda: {"__MidiNote__": True, "data": dict(DATA[0])}, lambda: {"__MidiNote__": True, "data": dict(DATA[1])},
        lambda: {"MidiNote": True, "data": {"pitch": 1}}, lambda: "__MidiNote__"]


def refused(rec, exc, fn, key):
    e, v = raises(fn)
    rec.check(isinstance(e, exc), key, f"{type(e).__name__} {v!r}")


def shape(k, xs):
    """documents of one shape: list, dict, and the two nested in one another"""
    if k == 0:
        return list(xs)
    if k == 1:
        return {f"k{i}": x for i, x in enumerate(xs)}
    if k == 2:
        return [[x] for x in xs]
    if k == 3:
        return {"a": list(xs[:2]), "b": {"c": list(xs[2:]), "data": None}}
    if k == 4:
        return [{"data": x, "n": i} for i, x in enumerate(xs)]
    return {"data": {"data": [list(xs), {"x": xs[0]}]}, "pitch": 60}


def view(x):
    """a decoded document with notes as attribute tuples"""
    if isinstance(x, MidiNote):
        return ("note",) + tuple(nm.att(x))
    if isinstance(x, dict):
        return {k: view(v) for k, v in x.items()}
    if isinstance(x, list):
        return [view(v) for v in x]
    return x


def run_case(case, rec):
    kind = case[0]
    if kind == "name":
        p = case[1]
        n = MidiNote(p, 0.0, 1.0)
        rec.step()
        rec.state(("pitch", p))
        back = MidiNote.from_name(n.pitch_name, 0.0, 1.0)
        rec.outcome(n.pitch_name)
        rec.eq(back.pitch, p, "name-roundtrip", n.pitch_name)
        rec.eq(back.pitch_name, n.pitch_name, "name-stable")
        rec.check(back == n, "named-note-differs", f"{p}: {n.pitch_name}")
        for letter, semi in LETTER.items():
            for acc, shift in ACC.items():
                rest = p - semi - shift
                if rest % 12:
                    continue
                octave = rest // 12 - 1
                for low in (False, True):
                    text = (letter.lower() if low else letter) + acc + str(octave)
                    rec.step()
                    m = MidiNote.from_name(text, 0.0, 1.0)
                    rec.eq(m.pitch, p, "spelling", text)
                    rec.eq(m.pitch_name, n.pitch_name, "spelling-name", text)
        rec.check(close(float(MidiNote.note_to_freq(p)), freq(p)), "note-freq", f"{p}: {MidiNote.note_to_freq(p)}")
    elif kind == "pitchfreq":
        o = case[1]
        for semi, name in enumerate(NAMES):
            p = 12 * (o + 1) + semi
            got = float(MidiNote.pitch_to_freq(name, o))
            rec.step()
            rec.state(("pf", p))
            rec.check(close(got, freq(p)), "pitch-freq", f"{name}{o}: {got} not {freq(p)}")
            if 0 <= p <= 127:
                byname = MidiNote.from_name(f"{name}{o}", 0.0, 1.0)
                rec.check(close(got, float(MidiNote.note_to_freq(byname.pitch))), "pitch-freq-name", f"{name}{o}")
    elif kind == "freqs":
        f = [float(MidiNote.note_to_freq(p)) for p in range(128)]
        rec.check(f[69] == 440.0, "a440", str(f[69]))
        for a, b in itertools.combinations(range(128), 2):
            rec.step()
            rec.check(f[a] < f[b], "freq-order", f"{a} {b}")
            rec.check(close(f[b] / f[a], 2.0 ** ((b - a) / 12)), "freq-ratio", f"{a} {b}")
            if (b - a) % 12 == 0:
                rec.check(close(f[b], f[a] * 2 ** ((b - a) // 12)), "octave", f"{a} {b}")
    elif kind == "args":
        p = case[1]
        name = MidiNote(p, 0.0, 1.0).pitch_name
        names = list(ARGS)
        for mask in itertools.product(*[[None] + ARGS[k] for k in names]):
            given = {k: v for k, v in zip(names, mask) if v is not None}
            for st, en in ((0.0, 1.0), (0.5, 0.75), (2, 7)):
                rec.step()
                m = MidiNote.from_name(name, st, en, **given)
                want = MidiNote(pitch=p, start_time=st, end_time=en, **dict(DEF, **given))
                rec.state((p, mask, st))
                rec.eq(nm.att(m), nm.att(want), "named-note", f"{name} {given}")
                for k, v in dict(DEF, **given).items():
                    rec.eq(getattr(m, k), v, "named-" + k, f"{name} {given}")
                pos = list(dict(DEF, **given).values())
                rec.eq(nm.att(MidiNote.from_name(name, st, en, *pos)), nm.att(want), "named-positional")
        for bad in ("", "H4", "4", "CX4", "C4x!"):
            refused(rec, Exception, lambda: MidiNote.from_name(bad, 0.0, 1.0), "bad-name-accepted")
    elif kind == "steps":
        sps, top = case[1], case[2]
        for s in range(top + 1):
            want = Decimal(s * 100000) / Decimal(sps)
            f = Fraction(s * 100000, sps)
            up = (f + Fraction(1, 2)).__floor__()
            rec.step()
            got = MidiNote.steps_to_seconds(s, sps)
            rec.eq(got, float(Decimal(up) / Decimal(100000)), "steps-to-seconds", f"{s} at {sps} ({want})")
            for e in range(s + 1, min(top, s + 13) + 1):
                rec.step()
                rec.state((sps, s, e))
                n = MidiNote(60, 0.25, 1.5, quantized_start_step=s, quantized_end_step=e)
                before = nm.att(n)
                rec.eq(n.step_duration_in_samples(), e - s + 1, "samples", f"{s}..{e}")
                rec.check(close(float(n.compute_step_duration_in_seconds(sps)), (e - s) / sps), "step-seconds",
                          f"{s}..{e} at {sps}")
                rec.eq(n.duration(), 1.25, "duration")
                rec.eq(nm.att(n), before, "asking-changes")
        for bad in (0, -1, -sps):
            n = MidiNote(60, 0.25, 1.5, quantized_start_step=0, quantized_end_step=4)
            refused(rec, ValueError, lambda: n.compute_step_duration_in_seconds(bad), "bad-grid")
        for qs, qe in ((-1, -1), (-1, 4)):
            n = MidiNote(60, 0.25, 1.5, quantized_start_step=qs, quantized_end_step=qe)
            refused(rec, ValueError, lambda: n.step_duration_in_samples(), "unquantized-samples")
            refused(rec, ValueError, lambda: n.compute_step_duration_in_seconds(sps), "unquantized-seconds")
    elif kind == "json":
        k, first, n = case[1:]
        for rest in itertools.product(range(4), repeat=n - 1):
            idx = (first,) + rest
            doc = shape(k, [NOTE[i]() for i in idx])
            want = view(shape(k, [MidiNote(**DATA[i]) if i < 2 else NOTE[i]() for i in idx]))
            text = json.dumps(doc)
            rec.step()
            rec.state((k, idx))
            for form in (text, text.encode("utf-8")):
                rec.eq(view(Dec().decode(form)), want, "json-document", f"shape {k} {idx} {type(form).__name__}")
            rec.eq(view(json.loads(text, cls=Dec)), want, "json-loads", f"shape {k} {idx}")
