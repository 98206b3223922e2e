"""C35: beats and downbeats over all small tempo and time signature histories, against counting in ticks."""
import contextlib
import io
import itertools
from fractions import Fraction as F
from .. import smf

PROP, LEVEL = "C35", "model_checking"
BOUNDS = {
    "quick": "all histories of 0..2 time signatures at 6 ticks over 6 signatures x 0..2 tempo changes at 5 ticks and 3 tempos x 6 starts x 2 ends; three signatures of which two or all at one time; each of 19 signatures alone, before and after another",
    "thorough": "all histories of 0..3 time signatures at 7 ticks over 7 signatures x 0..2 tempo changes at 7 ticks and 3 tempos x 9 starts x 3 ends",
}
ASSUMPTIONS = ["a first time signature after the start of the file counts in quarters, so that what is counted before it is not in doubt",
               "a beat that falls on the end of the file to within rounding may or may not be listed"]
RES = 4
TS = [(4, 4), (3, 4), (6, 8), (2, 2), (5, 8), (9, 8), (12, 16), (6, 4), (9, 4), (12, 2), (3, 8), (1, 4), (7, 8), (3, 2), (6, 16), (15, 8), (5, 4), (8, 8), (1, 1)]
TSTICK = [0, 4, 6, 9, 12, 16, 17]
TPTICK = [0, 3, 4, 8, 10, 16, 13]
US = [500000, 250000, 900000]
STARTS = [F(0), F(4), F(7, 2), F(9), F(12), F(16), F(40), F(6), F(17)]


def setup():
    global PM
    import warnings
    import logging
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI as PM


def cases(tier):
    th = tier == "thorough"
    nts, ntick, ns = (7, 7, 3) if th else (6, 6, 2)
    for k in range(ns + 1):
        for ticks in itertools.combinations_with_replacement(range(ntick), k):
            for sig in itertools.product(range(nts), repeat=k):
                # a quarter-counting signature first, unless it is there from the start
                if k and TSTICK[ticks[0]] and sig[0] not in (0, 1):
                    continue
                if k == 3 and len(set(sig)) < 2:
                    continue
                yield [[[TSTICK[a], b] for a, b in zip(ticks, sig)], th]
    for s in range(len(TS)):
        yield [[[0, s]], th]
        for t in (4, 6, 12):
            yield [[[t, 0], [t, s]], th]
            yield [[[0, 1], [t, s]], th]
            yield [[[0, s], [t, 0]], th]
    if not th:
        for a, b, c in itertools.product(range(3), repeat=3):
            for t in (4, 12, 16):
                yield [[[0, a], [t, b], [t, c]], False]
                yield [[[0, a], [t, b], [t, c], [t + 1, a]], False]
    for a, b, c in itertools.product(range(4), repeat=3):
        for t in (4, 12):
            yield [[[0, 0], [t, a], [t, b], [t, c]], False]


def run_case(case, rec):
    sigs, th = case
    nt = 7 if th else 5
    if th and len(sigs) == 3:
        tempos = [[], [[4, 1], [10, 2]]]
    else:
        tempos = [[[TPTICK[a], u] for a, u in zip(t, us)] for k in range(3) for t in itertools.combinations(range(nt), k)
                  for us in itertools.product(range(3), repeat=k) if len(set(us)) == k and list(t) == sorted(t, key=lambda i: TPTICK[i])]
    for tp in tempos:
        for end in ((18, 44, 16) if th else (18, 44)):
            one(sigs, tp, end, 9 if th else 6, rec)


def one(sigs, tp, end, nstart, rec):
    ev = sorted([[t, ["ts", *TS[s]]] for t, s in sigs] + [[t, ["tempo", US[u]]] for t, u in tp], key=lambda e: e[0])
    tracks = [ev, [[1, ["on", 0, 60, 9]], [end, ["off", 0, 60]]]]
    with contextlib.redirect_stdout(io.StringIO()):
        pm = PM(io.BytesIO(smf.encode(tracks, RES)))
    tm = smf.tempo_map(tracks, RES)
    last = max([end] + [t for t, _ in sigs] + [t for t, _ in tp])

    def sec(x):
        k, u = [(k, u) for k, u in tm if k <= x][-1]
        return F(smf_exact(k, tm)) + (x - k) * F(u, 1000000 * RES)
    # of several signatures at one time the last is in force
    force = {}
    for t, s in sigs:
        force[t] = TS[s]
    for start in STARTS[:nstart]:
        beats, down = count(start, last, force)
        rec.step(len(beats))
        got = [float(x) for x in pm.get_beats(float(sec(start)))]
        want = [float(sec(x)) for x in beats]
        ctx = lambda: f"signatures {[(t, TS[s]) for t, s in sigs]} tempos {[(t, US[u]) for t, u in tp]} end {end} from tick {start}"
        eend = float(sec(F(last)))
        trim = lambda xs: [x for x in xs if x < eend - 1e-6]
        same = lambda a, b: len(a) == len(b) and all(abs(x - y) < 1e-6 for x, y in zip(a, b))
        rec.check(same(trim(got), want) and all(x < eend + 1e-6 for x in got), "beats", lambda: f"{ctx()}: got {got}, expected {want}")
        dgot = [float(x) for x in pm.get_downbeats(float(sec(start)))]
        dwant = [float(sec(x)) for x in down]
        rec.check(same(trim(dgot), dwant), "downbeats", lambda: f"{ctx()}: got {dgot}, expected {dwant}")
        rec.check(set(dgot) <= set(got), "downbeat-is-beat", lambda: f"{ctx()}: {dgot} {got}")
        rec.state((tuple(beats), tuple(down)))
    rec.outcome(tuple(got))


def smf_exact(tick, tm):
    s = F(0)
    for (k, u), nxt in zip(tm, [t for t, _ in tm[1:]] + [None]):
        hi = tick if nxt is None else min(tick, nxt)
        if hi > k:
            s += (hi - k) * F(u, 1000000 * RES)
    return s


def count(start, last, force):
    """(beats, downbeats) in ticks, counted from start"""
    compound = lambda n: n % 3 == 0 and n > 3
    changes = sorted(force)
    beats, down, x = [], [], start
    cur, bar = (4, 4), 0
    for t in changes:
        if t <= start:
            cur = force[t]
    while x < last:
        if x in force:
            cur, bar = force[x], 0
        n, d = cur
        beats.append(x)
        if bar == 0:
            down.append(x)
        bar = (bar + 1) % (n // 3 if compound(n) else n)
        nxt = x + F(4 * RES, d) * (3 if compound(n) else 1)
        x = min([nxt] + [t for t in changes if x < t <= nxt])
        x = F(x)
    return beats, down
