"""C48: tempo, time and key signatures as values: conversion, validation, order.

Every history of a bounded number of assignments of qpm and bpm is run on a
real tempo signature and compared after each one with exact rational
arithmetic; every time signature and key signature of a bounded domain is
constructed; every list of signatures at a bounded number of times (in every
order, numbered by arrival) is sorted and compared with the stable order.
"""
import itertools
import math
from fractions import Fraction

from mc.core import raises

PROP, LEVEL = "C48", "model_checking"
BOUNDS = {
    "quick": "all histories of 3 assignments out of 8 on 20 tempos; 700 tempos given in microseconds; numerators and "
             "denominators -2..65 in all pairs (and wrongly typed); all key signatures; all lists of 4 signatures at "
             "6 times (two pairs of them close together) of each of the three kinds, numbered in every way",
    "thorough": "as quick with histories of 4 assignments, lists of 5 signatures, and pairs up to 300",
}
ASSUMPTIONS = ["signature times compared are equal or at least a microsecond apart"]

QPM = [1, 20, 59.5, 60, 96.0, 120, 127.35, 240, 500, 999]
RES = [1, 24, 96, 220, 480, 32767]
ASSIGN = [("qpm", 60), ("qpm", 90.5), ("qpm", 240), ("qpm", 1), ("bpm", 30), ("bpm", 15.25), ("bpm", 60), ("bpm", 0.5)]
TIMES = [0.0, 0.5, 0.5001, 1, 7.25, 7.250001]


def setup():
    global Tempo, TimeSig, Key, KST
    from neural_graph_composer.midi.midi_time_signature import MidiTempoSignature as Tempo
    from neural_graph_composer.midi.midi_time_signature import MidiTimeSignature as TimeSig
    from neural_graph_composer.midi.midi_key_signature import MidiKeySignature as Key, KeySignatureType as KST


def cases(tier):
    th = tier == "thorough"
    for q in QPM:
        for r in (RES if th else [96, 480]):
            yield ["tempo", q, r, 4 if th else 3]
    yield ["tempo-defaults"]
    for k in range(7):
        yield ["micro", k]
    for n in range(-2, 301 if th else 66):
        yield ["timesig", n, 300 if th else 65]
    yield ["keys"]
    for kind in range(3):
        for first in range(len(TIMES)):
            yield ["order", kind, first, 5 if th else 4]


def close(a, b):
    return math.isclose(a, float(b), rel_tol=1e-9, abs_tol=1e-15)


def agree(rec, t, qpm, res, ctx):
    q = Fraction(qpm)
    rec.step()
    rec.outcome(qpm)
    rec.check(close(t.qpm, q), "qpm", f"{ctx}: {t.qpm} not {float(q)}")
    rec.check(close(t.bpm, q / 4), "bpm", f"{ctx}: {t.bpm}")
    rec.check(close(t.seconds_per_quarter, 60 / q), "seconds-per-quarter", f"{ctx}: {t.seconds_per_quarter}")
    rec.check(close(t.seconds_per_tick, 60 / (q * res)), "seconds-per-tick", f"{ctx}: {t.seconds_per_tick}")
    rec.eq(t.resolution, res, "resolution", ctx)


def run_case(case, rec):
    kind = case[0]
    if kind == "tempo":
        q, r, depth = case[1:]
        for hist in itertools.product(ASSIGN, repeat=depth):
            t = Tempo(1.5, q, r)
            other = Tempo(0.0, 100, 50)
            agree(rec, t, q, r, "new")
            for i, (name, v) in enumerate(hist):
                setattr(t, name, v)
                agree(rec, t, Fraction(v) * (4 if name == "bpm" else 1), r, str(hist[:i + 1]))
                rec.state((q, r, name, v))
            rec.eq(t.midi_time, 1.5, "time")
            agree(rec, other, 100, 50, "other")
            rec.check(close(Tempo.tempo_to_qpm(60e6 / q), q), "micro-roundtrip", str(q))
    elif kind == "tempo-defaults":
        agree(rec, Tempo(), 120, 480, "default")
        agree(rec, Tempo(None, None, None), 120, 480, "none")
        rec.eq(Tempo().midi_time, 0.0, "default-time")
        rec.eq(Tempo(None, 60, 96).midi_time, 0.0, "default-time")
        agree(rec, Tempo(2, 90), 90, 480, "no resolution")
        agree(rec, Tempo(2, resolution=96), 120, 96, "no qpm")
        for a in itertools.product([0.0, 3, None, "1"], [60, 0, -1, 0.5, "60", None], [480, 0, -4, 1.5, None]):
            e, t = raises(Tempo, *a)
            rec.step()
            ok = a[0] != "1" and (a[1] is None or (a[1] != "60" and a[1] > 0)) and a[2] in (480, None)
            rec.check((e is None) == ok, "tempo-refused", f"{a}: {e!r}")
            if ok:
                agree(rec, t, 120 if a[1] is None else a[1], 480, str(a))
                rec.eq(t.midi_time, a[0] or 0.0, "time", str(a))
    elif kind == "micro":
        for m in range(1, 100):
            us = m * [1, 10, 1000, 5000, 10000, 12345, 167000][case[1]]
            rec.step()
            rec.state(us)
            rec.check(close(Tempo.tempo_to_qpm(us), Fraction(60_000_000, us)), "micro", str(us))
            rec.check(close(Tempo(0.0, Tempo.tempo_to_qpm(us), 480).seconds_per_quarter, Fraction(us, 1_000_000)),
                      "micro-seconds", str(us))
    elif kind == "timesig":
        n, top = case[1:]
        for d in range(-2, top + 1):
            rec.step()
            e, t = raises(TimeSig, 1.5, n, d)
            if n > 0 and d > 0 and d & (d - 1) == 0:
                rec.check(e is None, "timesig-refused", f"{n}/{d}: {e!r}")
                rec.state((n, d))
                rec.eq((t.numerator, t.denominator, t.midi_time), (n, d, 1.5), "timesig", f"{n}/{d}")
                beats = n // 3 if d >= 8 and n > 3 and n % 3 == 0 else n
                rec.eq(t.beats_per_measure(), beats, "beats", f"{n}/{d}")
                t.numerator, t.denominator = 3, 4
                rec.eq(t.beats_per_measure(), 3, "beats", f"{n}/{d} then 3/4")
            else:
                rec.check(isinstance(e, ValueError), "timesig-accepted", f"{n}/{d}: {e!r}")
        for bad in ((n, 4.0), (float(n), 4), (str(n), 4), (n, None), (None, 4)):
            e, t = raises(TimeSig, 0.0, *bad)
            rec.check(isinstance(e, TypeError), "timesig-type", f"{bad}: {e!r}")
        rec.eq((TimeSig().numerator, TimeSig().denominator, TimeSig().midi_time), (4, 4, 0.0), "timesig-default")
    elif kind == "keys":
        for k in range(-7, 24):
            for m, want in ((0, KST.MAJOR), (1, KST.MINOR)):
                s = Key(0.25, k, m)
                rec.step()
                rec.state((k, m))
                rec.eq((s.midi_time, s.midi_key, s.mode), (0.25, k, want), "key")
            for bad in (-1, 2, 3, None, "major"):
                e, s = raises(Key, 0.0, k, bad)
                rec.check(isinstance(e, ValueError), "key-mode", f"{bad!r}: {e!r}")
        rec.eq((Key().midi_time, Key().midi_key, Key().mode), (0.0, 0, KST.MAJOR), "key-default")
    elif kind == "order":
        k, first, n = case[1:]
        make = [lambda t: Tempo(t, 60, 96), lambda t: TimeSig(t, 3, 4), lambda t: Key(t, 1, 0)][k]
        for rest in itertools.product(range(len(TIMES)), repeat=n - 1):
            ts = [TIMES[i] for i in (first,) + rest]
            for seqs in itertools.permutations(range(n)):
                L = []
                for t, q in zip(ts, seqs):
                    s = make(t)
                    s.seq = q
                    L.append(s)
                rec.step()
                rec.eq([(s.midi_time, s.seq) for s in sorted(L)], sorted(zip(ts, seqs)), "order", str(ts))
            rec.state((k, tuple(ts)))
            a, b = L[0], L[1]
            rec.eq((a < b, b < a), ((ts[0], seqs[0]) < (ts[1], seqs[1]), (ts[1], seqs[1]) < (ts[0], seqs[0])), "less")
