"""C43: scales and triads for every root, scale and degree against the step patterns."""
import itertools
from ..core import raises
from .c44 import CH

PROP, LEVEL = "C43", "model_checking"
BOUNDS = {
    "quick": "all 12 roots x (name, lower-case name, pitch class) x 10 scales x (enum, name) x 7 degrees; all interval lists of length 1..3 x roots; all chord letters x roots; invalid roots and scales",
    "thorough": "as quick, interval lists of length up to 4",
}
ASSUMPTIONS = ["scale step patterns of the standard theory are the reference"]
STEPS = {"major": "2212221", "minor": "2122122", "dorian": "2122212", "phrygian": "1222122", "lydian": "2221221",
         "mixolydian": "2212212", "aeolian": "2122122", "locrian": "1221222", "harmonic_minor": "2122131",
         "melodic_minor": "2122221"}
NAMES = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"]
QUAL = {(4, 3): "maj", (3, 4): "min", (3, 3): "dim", (4, 4): "aug"}
IVS = {"P1": 0, "m2": 1, "M2": 2, "m3": 3, "M3": 4, "P4": 5, "A4": 6, "d5": 6, "P5": 7, "A5": 8, "m6": 8, "M6": 9,
       "m7": 10, "M7": 11, "P8": 12, "M9": 14, "m9": 13, "P11": 17, "M13": 21, "m13": 20}
LETTER = {"M": (0, 4, 7), "m": (0, 3, 7), "7": (0, 4, 7, 10), "6": (0, 4, 7, 9), "9": (0, 4, 7, 10, 14)}


def setup():
    global T, ms
    from neural_graph_composer.midi import midi_scales as ms
    T = ms.MusicTheory


def cases(tier):
    for r in range(12):
        for sc in STEPS:
            yield ["scale", r, sc]
        for n in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
            if n < 3:
                yield ["ivs", r, n, []]
            else:
                for i in range(len(IVS)):
                    yield ["ivs", r, n, [i]]
        yield ["letters", r]
    yield ["bad"]


def run_case(case, rec):
    kind = case[0]
    if kind == "scale":
        _, r, sc = case
        S = ms.ScaleType(sc)
        offs = [0]
        for c in STEPS[sc][:-1]:
            offs.append(offs[-1] + int(c))
        notes = [NAMES[(r + o) % 12] for o in offs]
        for scale in (S, sc):
            for root in (NAMES[r], NAMES[r].lower(), r):
                rec.step(3)
                rec.eq(T.notes_from_scale(root, scale), notes, "notes", f"{root} {sc}")
                tri = [[notes[i], notes[(i + 2) % 7], notes[(i + 4) % 7]] for i in range(7)]
                rec.eq(T.triads_from_scale(root, scale), ["".join(t) for t in tri], "triads", f"{root} {sc}")
                got = T.triads_from_scale_tuple(root, scale)
                rec.eq([list(n) for n, _ in got], tri, "triad-notes", f"{root} {sc}")
                for i, (_, q) in enumerate(got):
                    up = [offs[(i + k) % 7] + 12 * ((i + k) // 7) for k in (0, 2, 4)]
                    rec.eq(q, QUAL[up[1] - up[0], up[2] - up[1]], "triad-quality", f"{root} {sc} degree {i + 1}")
                    rec.state((root, sc, i))
                rec.outcome(tuple(notes))
        for root in (NAMES[r], NAMES[r].lower()):
            for scale in (S, sc):
                want = [root + n for n, st in CH.items() if {(r + sum(st[:k])) % 12 for k in range(len(st) + 1)
                                                             if not (n.endswith("13") and k == 5)}
                        <= {(r + o) % 12 for o in offs}]
                rec.step()
                rec.eq(T.chord_from_scale_name_extended(root, scale), want, "chords-of-scale", f"{root} {sc}")
        rec.eq(sorted(i.value for i in T.intervals_from_scale(S)), offs, "intervals", sc)
        rec.eq(T.intervals_from_scale(S.name.lower()), T.intervals_from_scale(S), "intervals-name", sc)
        rec.eq(list(T.scales[S]), offs, "scale-table", sc)
        rec.eq(T.chord_pitch_from_interval(r, sorted(T.intervals_from_scale(S), key=lambda i: i.value)),
               [(r + o) % 12 for o in offs], "scale-pitches")
    elif kind == "ivs":
        _, r, n, pre = case
        for w in itertools.product(range(len(IVS)), repeat=n - len(pre)):
            names = [list(IVS)[i] for i in pre + list(w)]
            want = [(r + IVS[x]) % 12 for x in names]
            rec.step(2)
            rec.eq(T.chord_pitch_from_interval(r, names), want, "chord-pitches", f"{names}")
            rec.eq(T.chord_pitch_from_interval(NAMES[r], [ms.Interval[x] for x in names]), want, "chord-pitches-enum", f"{names}")
            if n == 2:
                rec.eq(sorted(set(T.chord_pitch_from_interval(NAMES[r].lower(), frozenset(names)))), sorted(set(want)), "chord-set")
            rec.state((r, tuple(want)))
    elif kind == "letters":
        r = case[1]
        for l, offs in LETTER.items():
            rec.step()
            rec.eq(T.chord_from_scale(NAMES[r] + l, T.notes_from_scale(NAMES[r], "major")),
                   [NAMES[(r + o) % 12] for o in offs], "chord-from-name", NAMES[r] + l)
    else:
        for root in (-1, 12, 99, "H", "", "Cb"):
            for f in (T.notes_from_scale, T.triads_from_scale, T.triads_from_scale_tuple):
                rec.step()
                rec.check(raises(f, root, "major")[0] is not None, "bad-root", lambda: f"{f.__name__} {root!r}")
            rec.check(raises(T.chord_pitch_from_interval, root, ["P1"])[0] is not None, "bad-root-chord", f"{root!r}")
        for sc in ("", "blues", 3, None):
            for f in (T.notes_from_scale, T.triads_from_scale, T.triads_from_scale_tuple):
                rec.check(raises(f, 0, sc)[0] is not None, "bad-scale", lambda: f"{f.__name__} {sc!r}")
        for iv in ("P1", ("P1",), None, ["P1", 3], ["X9"]):
            rec.check(raises(T.chord_pitch_from_interval, 0, iv)[0] is not None, "bad-intervals", f"{iv!r}")
