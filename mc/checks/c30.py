"""C30: notes read from all small event schedules."""
import contextlib
import io
import itertools
import math
import os
from .. import smf
from ..core import raises

PROP, LEVEL = "C30", "model_checking"
BOUNDS = {
    "quick": "all one-track schedules of 1..4 of 8 events at equal or increasing ticks (16 steps), all two-track schedules of up to 4 of 6 events, ended and unended, with and without tempo changes; path, bytes and parsed form for all of up to 3 events; all schedules of up to 3 of 12 events on each of the 16 channels; all schedules of up to 4 of a note's start, its end and one of 25 other events (texts, names, pressures, system messages, controllers, signatures, tempos, ...), for each; every pitch, velocity and program; six openings with two keys struck and one ended, followed by all schedules of 3 of 4 events; notes of a tick and more at resolutions 9600 and 32767; notes after a million ticks",
    "thorough": "one-track schedules of 1..5 of 9 events, two-track schedules of up to 5 of 7 events",
}
ASSUMPTIONS = ["files are well-formed (the byte parser of mido is trusted)", "at most 128 instruments in a file"]
EV = [["on", 0, 60, 90], ["off", 0, 60], ["on", 0, 64, 50], ["on", 0, 64, 0], ["on", 9, 60, 127], ["off", 9, 60],
      ["prog", 0, 5], ["on", 1, 60, 1], ["tempo", 250000]]
EV2 = [["on", 0, 60, 90], ["off", 0, 60], ["on", 0, 67, 50], ["off", 0, 67], ["on", 9, 60, 80], ["prog", 0, 9], ["off", 9, 60]]
# events that concern no note
meta = lambda n, data: ["raw", [0xFF, n, len(data)] + list(data)]
OTHER = [meta(0, b"\0\5"), meta(1, b"words"), meta(2, b"(c)"), ["name", "lead"], meta(4, b"piano"), ["lyric", "la"], meta(6, b"verse"),
         meta(7, b"cue"), meta(9, b"device"), meta(0x20, [0]), meta(0x21, [1]), meta(0x54, [0, 1, 2, 3, 4]), meta(0x7F, [0, 1, 2]),
         ["raw", [0xF0, 4, 0x7E, 0x7F, 9, 0xF7]], ["raw", [0xA0, 60, 30]], ["raw", [0xD0, 30]], ["tempo", 250000],
         ["ts", 3, 4], ["ks", 2, 0], ["cc", 0, 64, 0], ["cc", 0, 123, 0], ["cc", 0, 120, 0], ["bend", 0, 100], ["prog", 1, 7],
         ["prog", 0, 7]]


def setup():
    global MidiReader, mido
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    from neural_graph_composer.midi_reader import MidiReader
    import mido


def cases(tier):
    th = tier == "thorough"
    k = 9 if th else 8
    for n in range(1, (5 if th else 4) + 1):
        for w in itertools.product(range(2 * k), repeat=n - 1):
            yield ["one", k, list(w), n]
    k = 7 if th else 6
    for n in range(1, (5 if th else 4) + 1):
        for w in itertools.product(range(2 * k), repeat=n - 1):
            yield ["two", k, list(w), n]


    for c in range(16):
        for n in range(1, (4 if th else 3) + 1):
            for w in itertools.product(range(12), repeat=n - 1):
                yield ["chan", c, list(w)]
    for v in range(128):
        yield ["value", v]
    for w in itertools.product(range(8), repeat=3 if th else 2):
        yield ["again", list(w)]
    for res, us in ((9600, 500000), (32767, 500000), (32767, 100000)):
        for n in range(1, 4):
            for w in itertools.product(range(8), repeat=n - 1):
                yield ["fine", res, us, list(w)]
    for t in (65535, 1000001, 2500000):
        yield ["late", t]
    for i in range(len(OTHER)):
        for n in range(1, (6 if th else 5)):
            for w in itertools.product(range(6), repeat=n - 1):
                yield ["other", i, list(w)]


def read(src):
    with contextlib.redirect_stdout(io.StringIO()):
        return MidiReader.read(src)


def got(p):
    out = []
    for i in p:
        t = p[i]
        if not t.notes:
            continue
        ns = sorted((int(n.pitch), int(n.velocity), float(n.start_time), float(n.end_time), int(n.program), bool(n.is_drum)) for n in t.notes)
        out.append((int(t.instrument.instrument_num), bool(t.instrument.is_drum), ns, float(t.total_time)))
    return sorted(out)


def want(tracks, res, tail):
    tm = smf.tempo_map(tracks, res)
    inst = {}
    for i, t in enumerate(tracks):
        for on, off, ch, pitch, vel, prog in smf.finish_ticks(t, tail[i]):
            if off > on:
                inst.setdefault((i, ch, prog), []).append((pitch, vel, smf.seconds(on, tm, res), smf.seconds(off, tm, res), prog, ch == 9))
    return sorted((prog, ch == 9, sorted(ns), max(n[3] for n in ns)) for (i, ch, prog), ns in inst.items())


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)
    return a == b


def one(tracks, res, tail, rec, forms):
    w = want(tracks, res, tail)
    data = smf.encode(tracks, res, tail=tail)
    rec.step(sum(len(t) for t in tracks))
    srcs = [("bytes", data)]
    if forms:
        with open("f.mid", "wb") as f:
            f.write(data)
        srcs += [("path", os.path.abspath("f.mid")), ("parsed", mido.MidiFile(file=io.BytesIO(data)))]
    for name, src in srcs:
        e, p = raises(read, src)
        rec.check(e is None, "read-raises", lambda: f"{name}: {tracks} tail {tail}: {e!r}")
        g = got(p)
        rec.check(same(g, w), "notes", lambda: f"{name}: {tracks} resolution {res} tail {tail}: read {g}, expected {w}")
        rec.check(p.resolution == res, "resolution", lambda: f"{name}: {p.resolution} != {res}")
        tot = max([x[3] for x in w], default=0.0)
        rec.check(math.isclose(p.total_time, tot, abs_tol=1e-9), "total-time", lambda: f"{name}: {tracks}: {p.total_time} != {tot}")
    rec.state(repr(w))
    if any(w):
        rec.outcome(repr(w))


def run_case(case, rec):
    if case[0] == "chan":
        _, c, w = case
        al = [["on", c, 60, 90], ["off", c, 60], ["prog", c, 25], ["prog", c, 0], ["on", c, 60, 0], ["on", (c + 1) % 16, 60, 70]]
        for last in range(12):
            tick, t = 0, []
            for o in w + [last]:
                tick += 2 * (o // 6)
                t.append([tick, al[o % 6]])
            if any(e[0] == "on" for _, e in t):
                one([t], 4, [3], rec, False)
                one([[x for x in t if x[1][0] == "prog"], t], 4, [3, 3], rec, False)
        return
    if case[0] == "again":
        # two keys struck and one of them ended at one tick or later; then any schedule
        al = [["on", 0, 60, 90], ["off", 0, 60], ["on", 0, 67, 50], ["off", 0, 67]]
        for pre in ([0, 2, 1], [0, 2, 3], [0, 1, 2], [0, 0, 2], [0, 2, 1, 0], [0, 2, 1, 0, 1]):
            for gap in (0, 3):
                for last in range(8):
                    tick, t = 0, []
                    for o in pre:
                        if o % 2:
                            tick = gap
                        t.append([tick, al[o]])
                    for o in case[1] + [last]:
                        tick += 3 * (o // 4)
                        t.append([tick, al[o % 4]])
                    one([t], 4, [5], rec, False)
        return
    if case[0] == "fine":
        _, res, us, w = case
        al = [["on", 0, 60, 90], ["off", 0, 60], ["on", 0, 67, 50], ["off", 0, 67]]
        for first in (0, 40):
            for last in range(8):
                tick, t = first, [[0, ["tempo", us]], [first, al[0]]]
                for o in w + [last]:
                    tick += o // 4
                    t.append([tick, al[o % 4]])
                one([t], res, [1], rec, False)
        return
    if case[0] == "late":
        t = case[1]
        one([[[0, ["on", 0, 60, 90]], [5, ["off", 0, 60]], [t, ["on", 0, 64, 90]], [t + 7, ["off", 0, 64]]]], 480, [0], rec, False)
        one([[[0, ["tempo", 250000]], [t, ["tempo", 750000]]], [[3, ["on", 0, 60, 90]], [t + 4, ["off", 0, 60]], [t + 9, ["prog", 0, 3]]]], 480, [0, 0], rec, False)
        return
    if case[0] == "other":
        _, i, w = case
        al = [["on", 0, 60, 90], ["off", 0, 60], OTHER[i]]
        for last in range(6):
            tick, t = 0, []
            for o in w + [last]:
                tick += 2 * (o // 3)
                t.append([tick, al[o % 3]])
            if any(e[0] == "on" for _, e in t) and OTHER[i] in [e for _, e in t]:
                one([t], 4, [3], rec, False)
                if OTHER[i][0] not in ("tempo", "ts", "ks"):
                    one([[x for x in t if x[1][0] == "on"], t], 4, [3, 3], rec, False)
        return
    if case[0] == "value":
        v = case[1]
        for c in (0, 9, 15):
            for vel in (1, 64, 127):
                one([[[0, ["prog", c, v]], [0, ["on", c, v, vel]], [3, ["off", c, v]], [3, ["on", c, 127 - v, max(1, v)]], [5, ["on", c, 127 - v, 0]]]], 4, [0], rec, False)
        return
    kind, k, w, n = case
    for last in range(2 * k):
        word = w + [last]
        if kind == "one":
            tick, t = 0, []
            for o in word:
                tick += 3 * (o // k)
                t.append([tick, EV[o % k]])
            if t[0][1][0] == "off":
                continue
            one([t], 4 if n % 2 else 96, [0], rec, n <= 3)
            if n <= 3:
                one([t], 480, [7], rec, False)
                one([[[0, ["tempo", 300000]], [2, ["tempo", 1000000]]], t], 10, [0, 5], rec, False)
        else:
            # the events alternate between two tracks by the parity of their place in the word
            for split in ((0, 1, 0, 1, 0), (0, 0, 1, 1, 0), (1, 0, 0, 1, 1)):
                ts, ticks = [[], []], [0, 0]
                for j, o in enumerate(word):
                    i = split[j]
                    ticks[i] += 2 * (o // k)
                    ts[i].append([ticks[i], EV2[o % k]])
                one(ts, 8, [4, 0], rec, n <= 2)
