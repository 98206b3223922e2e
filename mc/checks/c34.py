"""C34: controllers, bends and signatures read from all small event schedules."""
import contextlib
import io
import itertools
import math
from .. import smf
from ..core import raises

PROP, LEVEL = "C34", "model_checking"
BOUNDS = {
    "quick": "all one-track schedules of up to 5 of 8 events that may repeat exactly, all of up to 4 of 6 on each of the 16 channels; all one-track schedules of 1..4 of 8 events (notes, controllers, bends, program changes on two channels) at equal or increasing ticks, all signature schedules of up to 4 of 8 events around notes, every key, numerator and denominator, every controller number on three channels, every bend amount at the boundaries; 5000 controllers and bends before, in and after a note",
    "thorough": "the same schedules of up to 5 of 9 and 5 of 8 events",
}
ASSUMPTIONS = ["signatures are on the first file track (types 0 and 1)", "files are well-formed (the byte parser of mido is trusted)"]
EV = [["on", 0, 60, 90], ["off", 0, 60], ["cc", 0, 7], ["bend", 0], ["prog", 0, 5], ["cc", 1, 64], ["on", 1, 62, 50], ["off", 1, 62],
      ["cc", 9, 1]]
SG = [["ts", 3, 4], ["ts", 6, 8], ["ks", 2, 0], ["ks", -3, 1], ["on", 0, 60, 90], ["off", 0, 60], ["tempo", 250000], ["ts", 5, 2]]
# events that may repeat one another exactly, some a tick later
REP = [[0, ["on", 0, 60, 90]], [2, ["off", 0, 60]], [0, ["cc", 0, 7, 5]], [2, ["cc", 0, 7, 5]], [0, ["cc", 0, 7, 0]], [0, ["bend", 0, 0]],
       [2, ["bend", 0, 0]], [0, ["bend", 0, 9]]]
NAMES = ["Cb", "Gb", "Db", "Ab", "Eb", "Bb", "F", "C", "G", "D", "A", "E", "B", "F#", "C#"]


def setup():
    global MidiReader, KT
    import warnings
    import logging
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    from neural_graph_composer.midi_reader import MidiReader
    from neural_graph_composer.midi.midi_key_signature import KeySignatureType as KT


def cases(tier):
    th = tier == "thorough"
    for n in range(1, (6 if th else 5) + 1):
        for w in itertools.product(range(len(REP)), repeat=n - 1):
            yield ["rep", list(w)]
    for c in range(16):
        yield ["chan", c]
    for kind, k in (("ev", 9 if th else 8), ("sig", 8)):
        for n in range(1, (5 if th else 4) + 1):
            for w in itertools.product(range(2 * k), repeat=n - 1):
                yield [kind, k, list(w)]
    for sf in range(-7, 8):
        yield ["key", sf]
    for d in range(8):
        yield ["den", d]
    for a in (-8192, -8191, -1, 0, 1, 8190, 8191):
        yield ["amount", a]
    for n in range(0, 128):
        yield ["number", n]
    for n in (2, 17, 129, 1000, 5000):
        yield ["many", n]


def read(data):
    with contextlib.redirect_stdout(io.StringIO()):
        return MidiReader.read(data)


def got_events(p):
    out = []
    for i in p:
        t = p[i]
        ccs = sorted((c.cc_number, c.cc_value, float(c.cc_time), int(c.program), bool(c.is_drum)) for c in t.control_changes)
        pbs = sorted((b.amount, float(b.midi_time), int(b.program), bool(b.is_drum)) for b in t.pitch_bends)
        if ccs or pbs or t.notes:
            out.append((int(t.instrument.instrument_num), bool(t.instrument.is_drum), len(t.notes), ccs, pbs))
    return sorted(out)


def want_events(tracks, res):
    tm = smf.tempo_map(tracks, res)
    out = []
    for t in tracks:
        made = {}                              # (channel, program) -> place where it first finished a note
        cnt = {}
        for on, off, ch, pitch, vel, prog, at in smf.finish_ticks(t, 0, True):
            made[ch, prog] = min(at, made.get((ch, prog), at))
            if off > on:
                cnt[ch, prog] = cnt.get((ch, prog), 0) + 1
        ev = {k: ([], []) for k in made}
        prog = [0] * 16
        for place, (tick, e) in enumerate(t):
            if e[0] == "prog":
                prog[e[1]] = e[2]
            if e[0] not in ("cc", "bend"):
                continue
            key = (e[1], prog[e[1]])
            if not (key in made and made[key] < place):
                later = sorted((at, k) for k, at in made.items() if k[0] == e[1] and at > place)
                if not later:
                    continue                   # the channel never finishes a note again
                key = later[0][1]
                rest = [k for at, k in later if at == later[0][0]]
                if len(rest) > 1:
                    return None                # two programs end notes together: order is not specified
            s = smf.seconds(tick, tm, res)
            if e[0] == "cc":
                ev[key][0].append((e[2], e[3], s, key[1], key[0] == 9))
            else:
                ev[key][1].append((e[2], s, key[1], key[0] == 9))
        for k in made:
            if cnt.get(k) or ev[k][0] or ev[k][1]:
                out.append((k[1], k[0] == 9, cnt.get(k, 0), sorted(ev[k][0]), sorted(ev[k][1])))
    return sorted(out)


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)
    return a == b


def check_events(tracks, res, rec):
    w = want_events(tracks, res)
    if w is None:
        rec.count("unordered_ties")
        return
    e, p = raises(read, smf.encode(tracks, res))
    rec.check(e is None, "read-raises", lambda: f"{tracks}: {e!r}")
    rec.step(sum(map(len, tracks)))
    g = got_events(p)
    rec.check(same(g, w), "events", lambda: f"{tracks}: read {g}, expected {w}")
    rec.state(repr(w))


def check_sigs(tracks, res, rec):
    tm = smf.tempo_map(tracks, res)
    e, p = raises(read, smf.encode(tracks, res))
    rec.check(e is None, "read-raises", lambda: f"{tracks}: {e!r}")
    rec.step(sum(map(len, tracks)))
    ts, ks = [(0.0, (4, 4))], [(0.0, None)]
    for tick, ev in tracks[0]:
        s = smf.seconds(tick, tm, res)
        if ev[0] == "ts":
            ts.append((s, (ev[1], ev[2])))
        elif ev[0] == "ks":
            major = smf_key(ev[1], ev[2])
            ks.append((s, (KT.MINOR if ev[2] else KT.MAJOR, major)))
    at = sorted({x + d for x, _ in ts + ks for d in (0.0, 1e-4)} | {50.0})
    for x in at:
        w = [v for s, v in ts if s <= x + 1e-9][-1]
        rec.check(p.time_signature(x + 2e-9) == w, "time-signature", lambda: f"{tracks}: at {x} {p.time_signature(x + 2e-9)}, expected {w}")
        w = [v for s, v in ks if s <= x + 1e-9][-1]
        if w is not None:
            rec.check(p.key_signature(x + 2e-9) == w, "key-signature", lambda: f"{tracks}: at {x} {p.key_signature(x + 2e-9)}, expected {w}")
    # every signature of the file is kept (one at time zero may be replaced by a later one at zero)
    for kind, have, want in (("ts", [(float(s.midi_time), (s.numerator, s.denominator)) for s in p.time_signatures], ts),
                             ("ks", [(float(s.midi_time), (s.mode, s.midi_key)) for s in p.key_signatures], ks)):
        for s, v in want:
            if s > 0:
                rec.check(sum(math.isclose(a, s, abs_tol=1e-9) and b == v for a, b in have) ==
                          sum(math.isclose(a, s, abs_tol=1e-9) and b == v for a, b in want), "kept", lambda: f"{tracks}: {have}, expected {want}")
    for i in p:
        for n in p[i].notes:
            w = [v for s, v in ts if s <= n.start_time + 1e-9][-1]
            rec.check((n.numerator, n.denominator) == w, "note-signature", lambda: f"{tracks}: note at {n.start_time} has {n.numerator}/{n.denominator}, expected {w}")
    rec.state(repr((ts, ks)))


def smf_key(sf, mode):
    """pitch class of the tonic: a fifth per sharp, minor a third lower"""
    return (7 * sf + (9 if mode else 0)) % 12


def run_case(case, rec):
    kind = case[0]
    if kind in ("ev", "sig"):
        _, k, w = case
        al = EV if kind == "ev" else SG
        for last in range(2 * k):
            tick, t = 0, []
            for j, o in enumerate(w + [last]):
                tick += 3 * (o // k)
                e = list(al[o % k])
                if e[0] == "cc":
                    e.append(10 + 20 * j)
                elif e[0] == "bend":
                    e.append(-8192 + 4000 * j)
                t.append([tick, e])
            if kind == "ev":
                if not any(e[0] in ("cc", "bend") for _, e in t):
                    continue
                check_events([t], 4, rec)
                if len(t) < 4:
                    check_events([[[0, ["tempo", 700000]]], t], 7, rec)
            else:
                check_sigs([t], 5, rec)
                if len(t) < 4:
                    check_sigs([[x for x in t if x[1][0] in ("ts", "ks", "tempo")], [x for x in t if x[1][0] in ("on", "off")]], 5, rec)
    elif kind == "rep":
        for last in range(len(REP)):
            tick, t = 0, []
            for o in case[1] + [last]:
                tick += REP[o][0]
                t.append([tick, REP[o][1]])
            if any(e[0] in ("cc", "bend") for _, e in t) and any(e[0] == "on" for _, e in t):
                check_events([t], 4, rec)
    elif kind == "chan":
        c = case[1]
        al = [[0, ["on", c, 60, 90]], [2, ["off", c, 60]], [1, ["cc", c, 7, 5]], [1, ["bend", c, -9]], [1, ["prog", c, 40 + c]], [0, ["prog", c, 0]]]
        for n in range(2, 5):
            for w in itertools.product(al, repeat=n):
                tick, t = 0, []
                for d, e in w:
                    tick += d
                    t.append([tick, e])
                if any(e[0] in ("cc", "bend") for _, e in t) and any(e[0] == "on" for _, e in t):
                    check_events([t], 4, rec)
    elif kind == "key":
        for mode in (0, 1):
            for tick in (0, 4):
                check_sigs([[[tick, ["ks", case[1], mode]], [tick, ["on", 0, 60, 1]], [9, ["off", 0, 60]]]], 4, rec)
    elif kind == "den":
        for num in range(1, 256):
            check_sigs([[[0, ["on", 0, 60, 1]], [3, ["ts", num, 2 ** case[1]]], [3, ["on", 0, 61, 1]], [9, ["off", 0, 60]]]], 4, rec)
    elif kind == "amount":
        for tick in (0, 1, 2, 3):
            check_events([sorted([[0, ["on", 0, 60, 1]], [2, ["off", 0, 60]], [tick, ["bend", 0, case[1]]]], key=lambda x: x[0])], 4, rec)
    elif kind == "number":
        for v in (0, 1, 64, 127):
            for tick in (0, 1, 2, 3):
                for c in (0, 9, 15):
                    check_events([sorted([[0, ["on", c, 60, 1]], [2, ["off", c, 60]], [tick, ["cc", c, case[1], v]]], key=lambda x: x[0])], 4, rec)
    elif kind == "many":                       # many controllers and bends, before and after the first note
        n = case[1]
        ev = [[i // 3, ["cc", 0, i % 120, i % 128] if i % 4 else ["bend", 0, i - 8192 if i % 8 else i]] for i in range(n)]
        on, off = ["on", 0, 60, 1], ["off", 0, 60]
        t = ev[-1][0]
        check_events([ev + [[t, on], [t + 2, off]]], 4, rec)
        check_events([[[0, on], [0, off]] + ev + [[t + 1, on], [t + 2, off]]], 4, rec)
        check_events([[[0, on]] + ev[:n // 2] + [[ev[n // 2][0], off]] + ev[n // 2:]], 4, rec)
