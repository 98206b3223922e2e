"""C37: warping the times of a piece, over all small maps of times and several event histories."""
import contextlib
import io
import itertools
import math
from .. import smf
from ..core import raises

PROP, LEVEL = "C37", "model_checking"
BOUNDS = {
    "quick": "all maps of 2..3 of 7 times to non-decreasing new times out of 5 x 8 pieces (tempo changes, signatures, controllers, bends, keys, lyrics on, inside and outside the range)",
    "thorough": "maps of 2..4 of 7 times to non-decreasing new times out of 6 x 8 pieces, and every order of the given pairs",
}
ASSUMPTIONS = ["the new times are not all the same", "tempo is compared through ticks, to within rounding of the tempo changes to ticks"]
RES = 96
OLD = [0.0, 0.5, 1.0, 2.0, 3.0, 4.5, 1.25]
NEW = [0.0, 0.5, 1.0, 3.0, 7.0, 2.0]
N0 = [["on", 0, 60, 80]]


def ev(*xs):
    return [list(x) for x in xs]


def note(a, b, p, ch=0):
    return [[a, ["on", ch, p, 80]], [b, ["off", ch, p]]]


def merge(*ls):
    return sorted([e for x in ls for e in x], key=lambda e: e[0])


NOTES = merge(note(0, 48, 60), note(48, 96, 62), note(96, 240, 64), note(192, 288, 65), note(300, 301, 67), note(288, 480, 69), note(400, 700, 71))
DR = merge(note(10, 20, 36, 9), note(288, 384, 38, 9))
CCS = ev([0, ["cc", 0, 7, 1]], [48, ["cc", 0, 7, 2]], [96, ["cc", 0, 7, 3]], [150, ["cc", 0, 7, 4]], [288, ["cc", 0, 7, 5]], [600, ["cc", 0, 7, 6]])
BENDS = ev([0, ["bend", 0, 5]], [96, ["bend", 0, 7]], [97, ["bend", 0, 9]], [430, ["bend", 0, 11]])
KEYS = ev([0, ["ks", 1, 0]], [96, ["ks", 2, 1]], [288, ["ks", -3, 0]], [500, ["ks", 4, 0]])
LY = [(3.0, "d"), (0.5, "a"), (1.0, "b"), (1.5, "c"), (0.5, "e")]
PIECES = [
    [[], NOTES],
    [ev([96, ["tempo", 250000]]), NOTES],
    [ev([0, ["tempo", 600000]], [100, ["tempo", 300000]], [288, ["tempo", 500000]]), merge(NOTES, CCS)],
    [merge(KEYS, ev([0, ["ts", 3, 4]], [288, ["ts", 4, 4]])), merge(NOTES, BENDS)],
    [merge(KEYS, ev([0, ["ts", 4, 4]], [192, ["ts", 6, 8]], [480, ["ts", 2, 4]], [192, ["tempo", 750000]])), merge(NOTES, CCS, BENDS), DR],
    [ev([288, ["ts", 5, 4]]), NOTES, DR],
    [[], note(0, 100, 60)],
    [ev([0, ["ts", 3, 4]], [144, ["ts", 2, 4]], [192, ["tempo", 400000]]), merge(NOTES, CCS)],
]


def setup():
    global PM, np, Lyric
    import warnings
    import logging
    from pretty_midi import Lyric
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy as np
    from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI as PM


def cases(tier):
    th = tier == "thorough"
    no, nn, top = (7, 6, 4) if th else (7, 5, 3)
    for k in range(2, top + 1):
        for old in itertools.combinations(sorted(OLD[:no]), k):
            for new in itertools.combinations_with_replacement(sorted(NEW[:nn]), k):
                if len(set(new)) > 1:
                    yield [list(old), list(new), list(range(k))]
                    if th and k < 4:
                        for o in itertools.permutations(range(k)):
                            if list(o) != list(range(k)):
                                yield [list(old), list(new), list(o)]


def interp(t, old, new):
    if t <= old[0]:
        return new[0]
    if t >= old[-1]:
        return new[-1]
    i = max(j for j in range(len(old) - 1) if old[j] <= t)
    return new[i] + (t - old[i]) * (new[i + 1] - new[i]) / (old[i + 1] - old[i])


def close(a, b):
    return len(a) == len(b) and all(math.isclose(x[0], y[0], abs_tol=1e-9) and x[-1] == y[-1] for x, y in zip(a, b))


def run_case(case, rec):
    old, new, order = case
    m = lambda t: interp(t, old, new)
    for pi, tracks in enumerate(PIECES):
        with contextlib.redirect_stdout(io.StringIO()):
            pm = PM(io.BytesIO(smf.encode(tracks, RES)))
        pm.lyrics += [Lyric(x, t) for t, x in LY]
        ctx = lambda: f"piece {pi} {old} -> {new} given as {order}"
        ins = [[(n.start, n.end, (n.pitch, n.velocity)) for n in x.notes] for x in pm.instruments]
        ccs = [[(c.time, (c.number, c.value)) for c in x.control_changes] for x in pm.instruments]
        bends = [[(c.time, c.pitch) for c in x.pitch_bends] for x in pm.instruments]
        keys = [(k.time, k.key_number) for k in pm.key_signature_changes]
        sigs = [(s.time, (s.numerator, s.denominator)) for s in pm.time_signature_changes]
        down = [float(x) for x in pm.get_downbeats()]
        ticks = list(range(0, max(t[-1][0] for t in tracks if t) + 1, 16))
        tt = {t: float(pm.tick_to_time(t)) for t in ticks}
        grid = [float(pm.tick_to_time(pm.time_to_tick(x))) for x in old]
        changes = len(pm.get_tempo_changes()[0])
        e, _ = raises(pm.adjust_times, np.array([old[i] for i in order]), np.array([new[i] for i in order]))
        rec.step()
        rec.check(e is None, "refused", lambda: f"{ctx()}: {e!r}")
        # notes
        for x, before in zip(pm.instruments, ins):
            want = [(m(s), m(t), a) for s, t, a in before if s >= old[0] and t <= old[-1] and m(t) > m(s)]
            got = [(n.start, n.end, (n.pitch, n.velocity)) for n in x.notes]
            ok = len(got) == len(want) and all(math.isclose(a[0], b[0], abs_tol=1e-9) and math.isclose(a[1], b[1], abs_tol=1e-9) and a[2] == b[2]
                                               for a, b in zip(sorted(got), sorted(want)))
            rec.check(ok, "notes", lambda: f"{ctx()}: got {got}, expected {want}")
        # events with a time
        def moved(events):
            es = [(m(t), a) for t, a in sorted(events, key=lambda e: e[0])]
            first = [e for e in es if e[0] == new[0]][-1:]
            return first + [e for e in es if new[0] < e[0] < new[-1]]
        for name, got, before in [("controllers", [(c.time, (c.number, c.value)) for c in x.control_changes], b) for x, b in zip(pm.instruments, ccs)] + \
                [("bends", [(c.time, c.pitch) for c in x.pitch_bends], b) for x, b in zip(pm.instruments, bends)] + \
                [("keys", [(k.time, k.key_number) for k in pm.key_signature_changes], keys), ("lyrics", [(k.time, k.text) for k in pm.lyrics], LY)]:
            rec.check(close(got, moved(before)), name, lambda: f"{ctx()}: {before}: got {got}, expected {moved(before)}")
        # the signature in force at every downbeat that is kept
        after = sorted((float(s.time), (s.numerator, s.denominator)) for s in pm.time_signature_changes)
        inside = [d for d in down if old[0] <= d <= old[-1] and m(d) < new[-1]]
        for d in inside:
            nxt = [x for x in down if x > d] + [1e9]
            if any(s[0] > d + 1e-9 and m(s[0]) <= m(d) + 1e-9 for s in sigs):
                continue                                # collapsed onto a later signature
            w = ([(4, 4)] + [a for t, a in sigs if t <= d + 1e-9])[-1]
            g = [a for t, a in after if t <= m(d) + 1e-6][-1:]
            rec.check(g == [w], "signature", lambda: f"{ctx()}: at downbeat {d} (now {m(d)}) {g}, expected {w}; {sigs} became {after}")
        # tempo: the piece has its ticks where it had them
        when, qpm = pm.get_tempo_changes()
        rec.check(all(0 < q < 1e6 for q in qpm) and all(a <= b for a, b in zip(when, list(when)[1:])), "tempo", lambda: f"{ctx()}: {when} {qpm}")
        if not any(new[i] == new[i + 1] for i in range(len(old) - 1)):
            k0 = None
            for t in ticks:
                if old[0] <= tt[t] <= old[-1]:
                    g = pm.time_to_tick(m(tt[t]))
                    if k0 is None:
                        k0 = (t, g)
                    slack = 2 + 2 * (len(old) + changes)
                    rec.check(abs((g - k0[1]) - (t - k0[0])) <= slack, "ticks", lambda: f"{ctx()}: tick {t} of {k0} now {g}; {when} {qpm}")
        rec.state((pi, tuple(old), tuple(new)))
    rec.outcome((tuple(old), tuple(new)))
