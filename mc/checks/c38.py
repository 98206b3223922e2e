"""C38: estimates of tempo and first beat, the waveform and the removal of invalid notes, over all small rhythms.

Every word of gaps between onsets (gaps that are too short, too long, folded into
the range of tempos, or close to each other) is played on one or two instruments and
the estimates are recomputed by pooling the gaps; every small set of onsets is scored
as a start of the beat; every combination of small instruments is synthesized.
"""
import itertools
from . import c36
from ..core import raises

PROP, LEVEL = "C38", "model_checking"
BOUNDS = {
    "quick": "all words of up to 4 of 10 gaps between onsets on one and two instruments; all sets of up to 4 of 9 onsets in 3 velocity patterns x 4 numbers of candidates, with and without a slower tempo, and onsets at each of the first 23 ms; all pieces of up to 2 of 12 instruments synthesized with 2 waves at 2 rates; all words of up to 4 of 6 notes (lasting, empty, reversed) on one and two instruments cleaned",
    "thorough": "words of up to 5 gaps, sets of up to 6 onsets, pieces of up to 3 instruments, words of up to 6 notes",
}
ASSUMPTIONS = ["the beats from a given start are checked by C35, the waveform of one instrument is the library's",
               "gaps that lie on a threshold to within rounding are not judged"]
GAPS = [0.0, 0.03, 0.06, 0.12, 0.26, 0.27, 0.5, 0.52, 1.0, 2.5]
ONSETS = [0.0, 0.25, 0.5, 0.75, 1.0, 1.375, 2.0, 2.25, 3.5]
VEL = [[100, 60, 30, 90, 20, 70], [1, 2, 3, 4, 5, 6], [127] * 6]
NOTES = [(60, 0.0, 1.0), (60, 0.0, 0.0), (62, 1.0, 0.5), (60, 0.0, 1.0), (64, 2.0, 2.0), (65, 0.5, 0.5 + 1e-6)]


def setup():
    global PM, pretty_midi, np
    c36.setup()
    PM, pretty_midi, np = c36.PM, c36.pretty_midi, c36.np


def cases(tier):
    th = tier == "thorough"
    for n in range((5 if th else 4) + 1):
        for w in itertools.product(range(len(GAPS)), repeat=max(0, n - 1)):
            yield ["gaps", n, list(w)]
    for n in range((6 if th else 4) + 1):
        for w in itertools.combinations(range(len(ONSETS)), n):
            yield ["start", [ONSETS[i] for i in w]]
    for k in range(1, 24):
        yield ["start", [k / 1000]]
        yield ["start", [k / 1000, 0.5 + k / 1000, 1.25]]
        yield ["start", [0.0, 0.5 + k / 1000, 1.0 + k / 1000]]
    for n in range((3 if th else 2) + 1):
        for w in itertools.product(range(len(c36.INS)), repeat=n):
            yield ["wave", list(w)]
    for n in range((6 if th else 4) + 1):
        for w in itertools.product(range(len(NOTES)), repeat=n):
            yield ["clean", list(w)]


def piece(onsets, vel=None, parts=1, tempo=120.0):
    pm = PM(initial_tempo=tempo)
    for i in range(parts):
        pm.instruments.append(pretty_midi.Instrument(i * 8))
    for k, t in enumerate(onsets):
        pm.instruments[k % parts].notes.append(pretty_midi.Note((vel or VEL[2])[k % 6], 60 + k % 3, t, t + 0.25))
    return pm


def pooled(gaps):
    """[mean, count] of the pools, None when a gap lies on a threshold"""
    pools = []
    for g in gaps:
        if any(abs(g - t) < 1e-9 for t in (0.05, 2.0)):
            return None
        if not 0.05 < g < 2:
            continue
        while g < 0.2:
            g *= 2
        d = sorted((abs(m - g), i) for i, (m, _) in enumerate(pools))
        if any(abs(x - 0.025) < 1e-9 for x, _ in d) or (len(d) > 1 and d[1][0] < 0.025 and d[1][0] - d[0][0] < 1e-9):
            return None
        if d and d[0][0] < 0.025:
            p = pools[d[0][1]]
            p[0] = (p[0] * p[1] + g) / (p[1] + 1)
            p[1] += 1
        else:
            pools.append([g, 1])
    return pools


def run_case(case, rec):
    kind = case[0]
    if kind == "gaps":
        return run_gaps(case, rec)
    if kind == "start":
        return run_start(case, rec)
    if kind == "wave":
        return run_wave(case, rec)
    for parts in (1, 2):
        pm = PM()
        for i in range(parts):
            pm.instruments.append(pretty_midi.Instrument(0, i == 1))
        for k, n in enumerate(case[1]):
            p, s, e = NOTES[n]
            x = pretty_midi.Note(80 + k, p, s, s + 1)
            x.end = e
            pm.instruments[k % parts].notes.append(x)
        want = [[n for n in i.notes if n.end > n.start] for i in pm.instruments]
        pm.remove_invalid_notes()
        rec.step()
        rec.check(len(pm.instruments) == parts and all(len(i.notes) == len(w) and all(a is b for a, b in zip(i.notes, w)) for i, w in zip(pm.instruments, want)),
                  "clean", lambda: f"left {[i.notes for i in pm.instruments]}, expected {want}")
        rec.state(("clean", parts, tuple(case[1])))
        rec.outcome(("clean", [len(w) for w in want]))


def run_gaps(case, rec):
    _, n, w = case
    if n == 0:
        onsets = []
    else:
        onsets = [0.5]
        for g in w:
            onsets.append(onsets[-1] + GAPS[g])
    for parts, backwards in ((1, False), (2, False), (2, True)):
        pm = piece(onsets[::-1] if backwards else onsets, parts=parts)
        before = c36.plain(pm)
        pools = pooled([b - a for a, b in zip(onsets, onsets[1:])])
        if pools is None:
            rec.count("on_a_threshold")
            return
        total = sum(c for _, c in pools)
        e, got = raises(pm.estimate_tempi)
        rec.step()
        rec.check(e is None, "tempi", lambda: f"onsets {onsets}: {e!r}")
        t, p = [np.asarray(x).tolist() for x in got]
        rec.check(len(t) == len(p) == len(pools), "tempi", lambda: f"onsets {onsets}: {t} {p}, pools {pools}")
        rec.check(all(a >= b for a, b in zip(p, p[1:])), "order", lambda: f"onsets {onsets}: shares {p}")
        a = sorted(zip(t, p))
        b = sorted((60 / m, c / total) for m, c in pools)
        rec.check(all(abs(x[0] - y[0]) < 1e-6 and abs(x[1] - y[1]) < 1e-9 for x, y in zip(a, b)), "tempi", lambda: f"onsets {onsets}: {a}, expected {b}")
        e, one = raises(pm.estimate_tempo)
        rec.step()
        if not pools:
            rec.check(isinstance(e, ValueError), "none", lambda: f"onsets {onsets}: {e!r} {one}")
        else:
            top = max(c for _, c in pools)
            rec.check(e is None and any(c == top and abs(60 / m - one) < 1e-6 for m, c in pools), "best", lambda: f"onsets {onsets}: {one}, pools {pools}")
        rec.check(c36.plain(pm) == before, "changed", "asking for tempos changed the piece")
        rec.state((tuple(onsets), parts, backwards))
        rec.outcome(tuple(b))


def run_start(case, rec):
    onsets = case[1]
    for vel, tempo, cand in itertools.product(range(3), (120.0, 80.0), (None, 1, 2, 3)):
        pm = piece(onsets, VEL[vel], 2, tempo)
        before = c36.plain(pm)
        e, got = raises(pm.estimate_beat_start, *([] if cand is None else [cand]))
        rec.step()
        if not onsets:
            rec.check(isinstance(e, ValueError), "empty", lambda: f"{e!r} {got}")
            continue
        rec.check(e is None, "start", lambda: f"onsets {onsets} at {tempo}: {e!r}")
        score = {}
        for c in onsets[:cand or 10]:
            beats = [float(b) for b in pm.get_beats(c)]
            hit = sum(VEL[vel][k % 6] for k, t in enumerate(onsets) if any(abs(t - b) < 0.0235 for b in beats + [0.0]))
            score[c] = hit / len(beats)
        best = max(score.values())
        rec.check(got in score and score[got] >= best - 1e-9, "start", lambda: f"onsets {onsets} tempo {tempo} velocities {VEL[vel]} {cand} candidates: {got}, scores {score}")
        rec.check(c36.plain(pm) == before, "changed", "asking for the first beat changed the piece")
        rec.state((tuple(onsets), vel, tempo, cand))
        rec.outcome((got, tuple(score.values())))


def run_wave(case, rec):
    w = case[1]
    for fs, wave in itertools.product((100, 350), (None, lambda x: np.sign(np.sin(x)))):
        pm = c36.make(w, {})
        before = c36.plain(pm)
        k = {} if wave is None else {"wave": wave}
        e, got = raises(pm.synthesize, fs=fs, **k)
        rec.step()
        rec.check(e is None, "wave", lambda: f"{w}: {e!r}")
        parts = [i.synthesize(fs=fs, **k) for i in c36.make(w, {}).instruments]
        want = np.zeros(max([len(p) for p in parts], default=0))
        for p in parts:
            want[:len(p)] += p
        if len(want) and np.abs(want).max() > 0:
            want = want / np.abs(want).max()
        rec.check(got.shape == want.shape and np.allclose(got, want, rtol=0, atol=1e-9), "wave",
                  lambda: f"instruments {w} at {fs}: {got[:5]} (of {got.shape}), expected {want[:5]} (of {want.shape})")
        rec.check(c36.plain(pm) == before, "changed", "synthesizing changed the piece")
        rec.state((tuple(w), fs, wave is None))
        rec.outcome((len(want), bool(len(want) and np.abs(want).max())))
