"""C36: what a whole piece reports about itself, over all combinations of small instruments."""
import copy
import itertools

PROP, LEVEL = "C36", "model_checking"
BOUNDS = {
    "quick": "all pieces of 0..3 instruments over 12 instruments (empty, drum, overlapping notes, controllers and bends only, pedal) x 4 meta event settings x 4 sampling rates and 3 given time grids x all options",
    "thorough": "as quick with 0..4 instruments",
}
ASSUMPTIONS = ["what a single instrument reports is taken from the library for pedals, bends, given time grids and transitions; the rest is recomputed from the notes"]
#          drum  notes (pitch, start, end, velocity)   controllers (num, value, time)   bends (amount, time)
INS = [
    (0, [], [], []),
    (0, [(60, 0.0, 1.0, 80)], [], []),
    (0, [(60, 0.0, 1.0, 80), (64, 0.0, 0.5, 90), (67, 1.0, 2.0, 1)], [], []),
    (0, [(72, 0.5, 1.5, 127), (72, 1.0, 2.0, 20)], [], []),
    (1, [(36, 0.0, 0.25, 100), (38, 3.0, 3.25, 100)], [], []),
    (0, [(127, 2.5, 4.0, 64)], [], []),
    (0, [(0, 0.25, 0.75, 30), (11, 0.75, 0.75 + 0.25, 31)], [], []),
    (0, [], [(7, 100, 5.0)], []),
    (0, [(62, 1.0, 1.5, 50)], [(64, 127, 0.5), (64, 0, 2.0)], []),
    (0, [(65, 0.5, 1.0, 50)], [], [(4096, 0.5), (0, 4.25)]),
    (1, [], [], []),
    (0, [(61, 3.0, 3.5, 70), (59, 0.0, 0.25, 71), (61, 0.0, 0.25, 72)], [], []),
]
META = [{}, {"ts": [0.0, 6.0]}, {"ks": [4.5]}, {"ly": [0.5, 2.25], "ts": [1.0]}]
FS = [1, 4, 8, 100]


def setup():
    global PM, pretty_midi, np
    import warnings
    import logging
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy as np
    import pretty_midi
    from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI as PM


def cases(tier):
    for k in range((4 if tier == "thorough" else 3) + 1):
        for w in itertools.product(range(len(INS)), repeat=k):
            yield list(w)


def make(w, meta):
    pm = PM()
    for n, i in enumerate(w):
        drum, notes, ccs, bends = INS[i]
        x = pretty_midi.Instrument(n, bool(drum))
        x.notes = [pretty_midi.Note(v, p, s, e) for p, s, e, v in notes]
        x.control_changes = [pretty_midi.ControlChange(*c) for c in ccs]
        x.pitch_bends = [pretty_midi.PitchBend(*b) for b in bends]
        pm.instruments.append(x)
    pm.time_signature_changes += [pretty_midi.TimeSignature(3, 4, t) for t in meta.get("ts", [])]
    pm.key_signature_changes += [pretty_midi.KeySignature(2, t) for t in meta.get("ks", [])]
    pm.lyrics += [pretty_midi.Lyric("la", t) for t in meta.get("ly", [])]
    return pm


def plain(pm):
    return [(x.program, x.is_drum, [(n.pitch, n.start, n.end, n.velocity) for n in x.notes],
             [(c.number, c.value, c.time) for c in x.control_changes], [(b.pitch, b.time) for b in x.pitch_bends]) for x in pm.instruments] + \
        [[(e.time, str(e)) for e in m] for m in (pm.time_signature_changes, pm.key_signature_changes, pm.lyrics)]


def padded(parts, rows):
    out = np.zeros((rows, max([p.shape[1] for p in parts], default=0)))
    for p in parts:
        out[:, :p.shape[1]] += p
    return out


def run_case(w, rec):
    same = lambda a, b: a.shape == b.shape and np.allclose(a, b, rtol=0, atol=1e-9)
    for meta in META:
        pm = make(w, meta)
        before = plain(pm)
        notes = [n for i in w for n in INS[i][1]]
        rec.eq([float(x) for x in pm.get_onsets()], sorted(n[1] for n in notes), "onsets", str(w))
        times = [n[2] for n in notes] + [c[2] for i in w for c in INS[i][2]] + [b[1] for i in w for b in INS[i][3]]
        rec.eq(float(pm.get_end_time()), max(times + sum(meta.values(), []) + [0.0]), "end-time", f"{w} {meta}")
        rec.step()
    rich = any(INS[i][2] or INS[i][3] for i in w)
    for fs in FS:
        for th in (64, None, 128):
            got = pm.get_piano_roll(fs=fs, pedal_threshold=th)
            if not rich:
                cols = max([int(fs * max([n[2] for n in INS[i][1]], default=0)) for i in w], default=0)
                want = np.zeros((128, cols))
                for i in w:
                    if not INS[i][0]:
                        for p, s, e, v in INS[i][1]:
                            want[p, int(s * fs):int(e * fs)] += v
            else:
                want = padded([x.get_piano_roll(fs=fs, pedal_threshold=th) for x in pm.instruments], 128)
            rec.check(same(got, want), "roll", lambda: f"{w} fs={fs} pedal {th}: {got.shape} {want.shape} {got.sum()} {want.sum()}")
            c = pm.get_chroma(fs=fs, pedal_threshold=th)
            rec.check(same(c, np.array([want[k::12].sum(axis=0) for k in range(12)])), "chroma", lambda: f"{w} fs={fs}")
            rec.step(2)
    for grid in ([0.0, 0.5, 1.0, 2.0], [0.25, 0.75], [1.0, 2.5, 3.0, 4.0, 9.0]):
        t = np.array(grid)
        got, c = pm.get_piano_roll(fs=8, times=t), pm.get_chroma(fs=8, times=t)
        want = padded([x.get_piano_roll(fs=8, times=t) for x in pm.instruments], 128)
        rec.check(same(got, want) and same(c, np.array([want[k::12].sum(axis=0) for k in range(12)])), "roll-times", lambda: f"{w} {grid}")
    for dur, vel, norm in itertools.product((False, True), repeat=3):
        want = np.zeros(12)
        for i in w:
            if not INS[i][0]:
                for p, s, e, v in INS[i][1]:
                    want[p % 12] += ((e - s) if dur else 1) * (v if vel else 1)
        if norm and want.sum():
            want /= want.sum()
        got = pm.get_pitch_class_histogram(dur, vel, norm)
        rec.check(same(got, want), "histogram", lambda: f"{w} {dur} {vel} {norm}: {got} {want}")
        rec.step()
    rec.check(same(pm.get_pitch_class_histogram(), pm.get_pitch_class_histogram(False, False, True)), "histogram-default")
    for th in (0.05, 0.3, 2.0):
        want = sum([x.get_pitch_class_transition_matrix(False, th) for x in pm.instruments], np.zeros((12, 12)))
        got = pm.get_pitch_class_transition_matrix(False, th)
        rec.check(same(got, want), "transitions", lambda: f"{w} {th}")
        g = pm.get_pitch_class_transition_matrix(True, th)
        rec.check(same(g, want / (want.sum() or 1.0)), "transitions-normalized", lambda: f"{w} {th}: {g.sum()}")
        rec.step(2)
    rec.check(plain(pm) == before, "changed", lambda: f"{w}: {before} became {plain(pm)}")
    rec.state(tuple(w))
    rec.outcome((want.sum(), len(notes)))
