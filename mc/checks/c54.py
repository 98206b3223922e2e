"""C54: every small piece through the one-hot encodings."""
import itertools

PROP, LEVEL = "C54", "model_checking"
TECHNIQUE = "explicit-state model checking: exhaustive enumeration of small pieces against a cell-by-cell reference"
BOUNDS = {
    "quick": "all ordered lists of up to 3 notes over 2 pitches and all spans on a grid of 5 times, at 2 sampling rates; all pieces of 2 tracks of up to 1 note each and of 2 tracks of 2 and 1 notes of one pitch and of 3 tracks of one note of one pitch; all index vectors of up to 5 over depths up to 6",
    "thorough": "also all pieces of 2 tracks of up to 2 notes each and of three tracks of one note",
}
ASSUMPTIONS = ["times are multiples of 1/8 s; cells in which one track starts and another ends a note of the same pitch are not judged"]
SPANS = [(a, b) for a in range(5) for b in range(a + 1, 6)]
NOTES = [(p, a, b) for p in (0, 127) for a, b in SPANS]
ONE = [n for n in NOTES if n[0] == 0]


def setup():
    global np, u, pretty_midi
    import numpy as np
    import pretty_midi
    from neural_graph_composer import utils as u


def cases(tier):
    for d in range(1, 7):
        for n in range(0, 6):
            yield ["np", d, n]
    for n in NOTES:
        yield ["one", [n]]
    for m in NOTES:
        for n in NOTES:
            yield ["one", [m, n]]
    for m in NOTES:
        yield ["two", m]
    if tier == "thorough":
        for m in NOTES:
            for n in NOTES:
                yield ["twotwo", m, n]


def make(tracks):
    piece = pretty_midi.PrettyMIDI()
    for t in tracks:
        i = pretty_midi.Instrument(0)
        i.notes = [pretty_midi.Note(100, p, a / 8, b / 8) for p, a, b in t]
        piece.instruments.append(i)
    return piece


def compare(tracks, rec):
    """tracks: lists of (pitch, start, end) in eighths of a second"""
    tracks = [[tuple(n) for n in t] for t in tracks]
    for fs in (4, 8):
        cell = lambda t: t * fs // 8
        got = u.pretty_midi_to_one_hot(make(tracks), fs=fs)
        rec.step()
        end = max([b for t in tracks for _, _, b in t] or [0])
        rec.eq(got.shape, (128, cell(end) + 1), "shape", f"{tracks} at {fs}")
        ons = [{(p, cell(a)) for p, a, b in t} for t in tracks]
        offs = [{(p, cell(b)) for p, a, b in t} for t in tracks]
        want = {}
        for on, off in zip(ons, offs):
            for k in on | off:
                want.setdefault(k, set()).add(1 if k in on else -1)
        cells = set(zip(*[i.tolist() for i in np.nonzero(got)]))
        rec.check(cells <= set(want), "extra", lambda: f"{tracks} at {fs}: {cells - set(want)}")
        for k, v in want.items():
            if len(v) == 1:
                rec.eq(float(got[k]), float(min(v)), "cell", f"{tracks} at {fs}, {k}")
        rec.state((fs, tuple(sorted(want))))
        rec.outcome(tuple(sorted(cells)))


def run_case(case, rec):
    k = case[0]
    if k == "np":
        _, d, n = case
        for v in itertools.product(range(d), repeat=n):
            for arg, ty in ((np.array(v, dtype=int), bool), (list(v), float), (np.array(v, dtype=int), int)):
                r = u.np_onehot(arg, d, data_type=ty)
                rec.step()
                rec.eq(r.shape, (n, d), "np-shape", f"{v} depth {d}")
                rec.eq(r.dtype, np.dtype(ty), "np-type", f"{v} depth {d}")
                rec.eq(r.astype(int).tolist(), [[int(i == j) for j in range(d)] for i in v], "np", f"{v} depth {d}")
            rec.state((d, v))
        return
    if k == "one":
        compare([case[1]], rec)
        if len(case[1]) == 2:
            for n in NOTES:
                compare([case[1] + [n]], rec)
    elif k == "two":
        compare([[case[1]], []], rec)
        for n in NOTES:
            compare([[case[1]], [n]], rec)
        if case[1][0] == 0:
            for n in ONE:
                for o in ONE:
                    compare([[case[1], n], [o]], rec)
                    compare([[case[1]], [n], [o]], rec)
    else:
        for n in ONE:
            compare([[case[1]], [case[2]], [n]], rec)
            for o in NOTES:
                compare([[case[1], case[2]], [n, o]], rec)
