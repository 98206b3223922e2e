"""C44: naming tables are inverse to each other for every value."""
from ..core import raises

PROP, LEVEL = "C44", "model_checking"
BOUNDS = {
    "quick": "every interval and pair of intervals, every semitone count -24..60, every chord of the tables, every step list of length 1..4 over 1..7, every pitch 0..127, every base interval x octave -1..12",
    "thorough": "as quick, step lists up to length 6",
}
ASSUMPTIONS = ["several names may stand for one interval size"]


def setup():
    global T, I, ms
    from neural_graph_composer.midi import midi_scales as ms
    T, I = ms.MusicTheory, ms.Interval


def cases(tier):
    yield ["semitones"]
    yield ["compound"]
    yield ["chords"]
    yield ["pitches"]
    yield ["tables"]
    for a in range(1, 8):
        for b in range(0, 8):
            yield ["steps", a, b, 5 if tier == "thorough" else 3]


SIZE = {"P1": 0, "m2": 1, "M2": 2, "m3": 3, "M3": 4, "P4": 5, "Tritone": 6, "P5": 7, "m6": 8, "M6": 9, "m7": 10,
        "M7": 11, "P8": 12, "m9": 13, "M9": 14, "m10": 15, "M10": 16, "P11": 17, "m13": 20, "M13": 21}
CH = {"M": (4, 3), "m": (3, 4), "7": (4, 3, 3), "M7": (4, 3, 4), "m7": (3, 4, 3), "m7b5": (3, 3, 4), "dim7": (3, 3, 3),
      "aug7": (4, 4, 2), "6": (4, 3, 2), "m6": (3, 4, 2), "9": (4, 3, 3, 4), "M9": (4, 3, 4, 3), "m9": (3, 4, 3, 4),
      "11": (4, 3, 3, 4, 3), "M11": (4, 3, 4, 3, 3), "m11": (3, 4, 3, 4, 3), "13": (4, 3, 3, 4, 3, 4),
      "M13": (4, 3, 4, 3, 3, 4), "m13": (3, 4, 3, 4, 3, 4), "add9": (4, 3, 7), "sus2": (2, 5), "sus4": (5, 2),
      "7sus4": (5, 2, 3)}
STEPNAME = dict(zip(("M m Seven MajorSeven MinorSeven HalfDiminishedSeven DiminishedSeven AugmentedSeven Sixth MinorSixth "
                     "Ninth MajorNinth MinorNinth Eleventh MajorEleventh MinorEleventh Thirteenth MajorThirteenth "
                     "MinorThirteenth AddNine SusTwo SusFour SevenSusFour").split(), CH))
TYPES = {"MAJOR": "M", "MINOR": "m", "SUS2": "sus2", "SUS4": "sus4", "SEVENTH": "7", "MAJOR_SEVENTH": "M7",
         "MINOR_SEVENTH": "m7", "DOMINANT_SEVENTH": "7", "AUGMENTED_SEVENTH": "aug7", "DIMINISHED_SEVENTH": "dim7",
         "HALF_DIMINISHED_SEVENTH": "m7b5", "DOMINANT_NINTH": "9", "MAJOR_NINTH": "M9", "MINOR_NINTH": "m9",
         "MAJOR_SIXTH": "6", "MINOR_SIXTH": "m6"}
OTHER = {"AUGMENTED": [0, 4, 8], "DIMINISHED": [0, 3, 6], "MINOR_MAJOR_SEVENTH": [0, 3, 7, 11],
         "DOMINANT_SHARP_NINTH": [0, 4, 7, 10, 15], "DOMINANT_FLAT_NINTH": [0, 4, 7, 10, 13]}
BYSET = {"maj": (0, 4, 7), "min": (0, 3, 7), "maj7": (0, 4, 7, 11), "m7": (0, 3, 7, 10), "7": (0, 4, 7, 10),
         "dim": (0, 3, 6), "aug": (0, 4, 8), "sus4": (0, 5, 7), "sus2": (0, 2, 7), "dim7": (0, 3, 6, 9),
         "6": (0, 4, 7, 9), "9": (0, 4, 7, 10, 14)}


def pitches(name):
    out = [0]
    for s in CH[name]:
        out.append(out[-1] + s)
    return out


def run_case(case, rec):
    kind = case[0]
    if kind == "semitones":
        have = {i.value for i in I}
        for name, v in SIZE.items():
            rec.eq(I[name].value, v, "size", name)
        for n in range(-24, 61):
            rec.step()
            e, i = raises(T.from_semitones, n)
            rec.state(n)
            if n in have:
                rec.check(e is None and i.value == n, "semitones", lambda: f"{n}: {e!r} {i}")
                rec.check(T.from_semitones(i.value) is i, "semitones-back", f"{n}")
            else:
                rec.eq(type(e), ValueError, "unsupported", f"{n}")
        for i in I:
            rec.check(T.from_semitones(i.value) is i, "interval-back", lambda: f"{i}")
    elif kind == "compound":
        have = {i.value for i in I}
        for a in I:
            for b in I:
                rec.step()
                e, c = raises(T.compound_interval_from_bases, a, b)
                if a.value + b.value in have:
                    rec.check(e is None and c.value == a.value + b.value, "compound", lambda: f"{a} {b}: {e!r} {c}")
                else:
                    rec.eq(type(e), ValueError, "compound-unsupported")
                rec.state((a.value, b.value))
        for n in range(-3, 160):
            rec.step()
            e, r = raises(T.compound_interval_to_base, n)
            if n < 0:
                rec.eq(type(e), ValueError, "to-base-negative")
            else:
                rec.eq(r, (n % 12, n // 12), "to-base")
                rec.eq(T.base_to_compound_interval(*r), n, "to-base-back")
        for b in range(-2, 15):
            for o in range(-1, 13):
                e, r = raises(T.base_to_compound_interval, b, o)
                if 0 <= b <= 11 and o >= 0:
                    rec.eq(r, 12 * o + b, "to-compound")
                    rec.eq(T.compound_interval_to_base(r), (b, o), "to-compound-back")
                else:
                    rec.eq(type(e), ValueError, "to-compound-refuse", f"{b} {o}")
    elif kind == "chords":
        rec.eq(set(T.chord_intervals), set(CH), "chord-names")
        for name, st in CH.items():
            rec.step()
            rec.eq(tuple(T.get_chord_intervals(name)), st, "chord-steps", name)
            rec.eq(T.get_chord_name(list(T.get_chord_intervals(name))), name, "chord-name-back", name)
            rec.eq(T.get_chord_name_from_intervals(tuple(st)), name, "chord-name-back2", name)
            rec.eq(T.get_chord_name_from_intervals(list(st)), name, "chord-name-back3", name)
            cum = [0]
            for s in st:
                cum.append(cum[-1] + s)
            iv = [i.value for i in T.chord_intervals_mapping[name]]
            # a thirteenth chord may be voiced without its eleventh
            want = [c for c in cum if not (name.endswith("13") and c == 17)]
            rec.eq(iv, want, "chord-tables", name)
            rec.outcome(tuple(cum))
        rec.eq(type(raises(T.get_chord_intervals, "nope")[0]), KeyError, "chord-unknown")
        for bad in ("M", None, 3, [1.5], ["a"]):
            rec.eq(type(raises(T.get_chord_name, bad)[0]), TypeError, "chord-type", f"{bad!r}")
            rec.eq(type(raises(T.get_chord_name_from_intervals, bad)[0]), TypeError, "chord-type2", f"{bad!r}")
    elif kind == "tables":
        for step, name in STEPNAME.items():
            rec.step()
            rec.eq(tuple(ms.ChordIntervals[step].value), CH[name], "step-enum", step)
        for i in ms.ScaleInterval.__members__:
            rec.eq(ms.ScaleInterval[i].value, I[i].value, "scale-interval", i)
        for i, v in T.intervals.items():
            rec.eq(v, i.value, "interval-table", str(i))
        by = {k.name: v for k, v in T.chords_types.items()}
        for k in ms.ChordType:
            rec.check(k.name in by, "type-missing", k.name)
        for k, name in TYPES.items():
            rec.step()
            rec.eq(list(by[k]), pitches(name), "type-table", k)
        for k, v in OTHER.items():
            rec.eq(list(by[k]), v, "type-table", k)
        for name, ps in BYSET.items():
            rec.step()
            rec.eq(T.chord_mapping.get(frozenset(ps)), name, "set-table", name)
        for k, v in T.rhythm_signatures.items():
            rec.eq(tuple(v), tuple(int(x) for x in k.split("/")), "rhythm-table", k)
    elif kind == "pitches":
        names = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"]
        seen = set()
        for p in range(128):
            rec.step()
            s = T.pitch_to_note(p)
            rec.eq(s, f"{names[p % 12]}{p // 12}", "pitch-name", f"{p}")
            k = 2 if s[1] == "#" else 1
            rec.eq(T.pitch_to_note_name[s[:k]] + 12 * int(s[k:]), p, "pitch-back", s)
            seen.add(s)
            rec.state(s)
        rec.eq(len(seen), 128, "pitch-distinct")
        rec.eq(dict(T.pitch_names), dict(enumerate(names)), "pitch-table")
        rec.eq(list(T.note_names), names, "note-table")
    else:
        _, a, b, n = case
        inv = {v: k for k, v in CH.items()}
        import itertools
        tails = itertools.chain([()], *(itertools.product(range(1, 8), repeat=k) for k in range(1, n)))
        for t in (tails if b else [()]):
            w = (a,) + ((b,) + t if b else ())
            rec.step()
            rec.eq(T.get_chord_name(list(w)), inv.get(w), "name-of-steps", f"{w}")
            rec.eq(T.get_chord_name_from_intervals(w), inv.get(w), "name-of-steps2", f"{w}")
        rec.state(w)
