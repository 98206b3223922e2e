"""C33: tick/second conversion over all small tempo histories, at every tick."""
import contextlib
import io
import itertools
import math
from .. import smf
from ..core import raises

PROP, LEVEL = "C33", "model_checking"
BOUNDS = {
    "quick": "all tempo histories of 0..3 changes at 5 ticks and 4 tempos x 3 resolutions, every tick to beyond the end, off-grid times around every tick; all histories of 2 changes over 5 tempos of which 3 a microsecond apart, at resolutions 96, 9600 and 32767",
    "thorough": "histories of 0..4 changes at 6 ticks and 5 tempos x 5 resolutions",
}
ASSUMPTIONS = ["tempo changes are on the first file track (types 0 and 1)"]
TICKS = [0, 1, 3, 7, 8, 20]
US = [500000, 250000, 600000, 999999, 1]
NEAR = [500000, 500001, 499999, 250000, 16777215]
RES = [96, 1, 480, 220, 960]


def setup():
    global PM, MidiReader
    import warnings
    import logging
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI as PM
    from neural_graph_composer.midi_reader import MidiReader


def cases(tier):
    th = tier == "thorough"
    ks, ku, kr, n = (6, 5, 5, 4) if th else (5, 4, 3, 3)
    for r in range(kr):
        for k in range(n + 1):
            for ticks in itertools.combinations_with_replacement(range(ks), k):
                yield [RES[r], list(ticks), ku]
    # tempos a microsecond apart, at high resolutions
    for res in (96, 9600, 32767):
        for ticks in itertools.combinations_with_replacement(range(ks), 2):
            yield [res, list(ticks), "near"]


def run_case(case, rec):
    res, ti, ku = case
    ticks = [TICKS[i] for i in ti]
    for us in itertools.product(NEAR if ku == "near" else US[:ku], repeat=len(ticks)):
        changes = [[t, ["tempo", u]] for t, u in zip(ticks, us)]
        for tail in (0, 6):
            one(res, [changes + [[(ticks or [0])[-1] + 2, ["on", 0, 60, 9]], [(ticks or [0])[-1] + 9, ["off", 0, 60]]]], tail, rec)
        if len(ticks) < 3:                       # type 1, conductor track only
            one(res, [changes, [[1, ["on", 0, 60, 9]], [4, ["off", 0, 60]]]], 0, rec)


def one(res, tracks, tail, rec):
    tm = smf.tempo_map(tracks, res)
    with contextlib.redirect_stdout(io.StringIO()):
        data = smf.encode(tracks, res, tail=[tail] * len(tracks))
        pm = PM(io.BytesIO(data))
        p = MidiReader.read(data)
    sec = lambda t: smf.seconds(t, tm, res)
    last = max(t[-1][0] for t in tracks if t) + tail
    scale = lambda t: [u for k, u in tm if k <= t][-1] / (res * 1e6)
    times = []
    close = lambda a, b: math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)
    for t in range(last + 1):
        x = float(pm.tick_to_time(t))
        rec.step()
        rec.check(close(x, sec(t)), "tick-to-time", lambda: f"{tracks} resolution {res}: tick {t} at {x}, expected {sec(t)}")
        times.append(x)
    rec.check(all(a < b for a, b in zip(times, times[1:])), "increasing", lambda: f"{tracks}: {times}")
    for t in range(last + 1):
        x = times[t]
        rec.check(pm.time_to_tick(x) == t, "round-trip", lambda: f"{tracks} resolution {res}: tick {t} -> {x} -> {pm.time_to_tick(x)}")
        for f in (0.25, 0.75):
            y = x + f * scale(t)
            w = t + (f > 0.5)
            rec.check(pm.time_to_tick(y) == w, "nearest", lambda: f"{tracks} resolution {res}: {y} -> {pm.time_to_tick(y)}, nearest is {w}")
    # beyond what was loaded
    for d in (1, 2, 17, 400):
        y = sec(last + d)
        rec.check(pm.time_to_tick(y) == last + d, "beyond", lambda: f"{tracks} resolution {res}: {y} -> {pm.time_to_tick(y)}, expected {last + d}")
    x = float(pm.tick_to_time(last + 30))
    rec.check(close(x, sec(last + 30)), "beyond", lambda: f"{tracks}: tick {last + 30} at {x}, expected {sec(last + 30)}")
    rec.check(pm.time_to_tick(x) == last + 30 and pm.time_to_tick(times[0]) == 0, "beyond", lambda: f"{tracks}: after extension")
    if tail == 0:                            # one tick after another past the end, on a fresh object
        fresh = PM(io.BytesIO(data))
        for t in range(last, last + 5):
            e, x = raises(fresh.tick_to_time, t)
            rec.check(e is None and close(float(x), sec(t)), "beyond", lambda: f"{tracks} resolution {res}: tick {t} of {last} at {x} {e!r}, expected {sec(t)}")
    # reported tempos
    when, qpm = pm.get_tempo_changes()
    n = sum(e[0] == "tempo" for _, e in tracks[0])
    rec.check(len(when) == len(qpm) <= n + 1 and list(when) == sorted(when), "tempo-list", lambda: f"{tracks}: {when} {qpm}")
    for t, u in tm:
        for x in (sec(t), sec(t) + 0.4 * scale(t)):
            g = [q for w, q in zip(when, qpm) if w <= x + 1e-12][-1]
            rec.check(math.isclose(g, 6e7 / u, rel_tol=1e-9), "tempo-list", lambda: f"{tracks}: at {x} {g}, expected {6e7 / u}; {when} {qpm}")
            g = p.tempo_signature(x + 1e-9 * scale(t))
            rec.check(g == (math.floor(6e7 / u + 1e-6), res), "tempo-signature", lambda: f"{tracks}: at {x} {g}, expected {6e7 / u} {res}")
            s = [q for q in p.tempo_signatures if q.midi_time <= x + 1e-9 * scale(t)][-1]
            rec.check(math.isclose(s.qpm, 6e7 / u, rel_tol=1e-6), "tempo-signature", lambda: f"{tracks}: at {x} {s}")
    rec.check(all(any(math.isclose(w, sec(t), abs_tol=1e-12) for t in [0] + [t for t, e in tracks[0] if e[0] == "tempo"]) for w in when), "tempo-list", lambda: f"{tracks}: {when}")
    rec.state((tuple(tm), res, last))
    rec.outcome(repr(times))
