"""Reference model of the documented chord-graph construction (plain Python)."""
import numpy as np


class N:
    """a note of the model: pitch, start, velocity, drum flag"""
    __slots__ = ("p", "s", "v", "d")

    def __init__(self, p, s, v=100, d=False):
        self.p, self.s, self.v, self.d = p, s, v, d


def tolerance(notes):
    st = sorted(n.s for n in notes)
    if len(st) < 3:
        return 0.0
    return float(np.percentile([b - a for a, b in zip(st, st[1:])], 95))


def groups(notes, filter_single=False):
    """[(time, [notes])] in order of time"""
    tol = tolerance(notes)
    d = {}
    for n in notes:
        if n.d or n.v == 0:
            continue
        key = n.s if tol == 0.0 else round(round(n.s / tol) * tol, 2)
        d.setdefault(key, []).append(n)
    out = sorted(d.items())
    if filter_single:
        out = [(k, g) for k, g in out if len(g) > 1]
    return out


def walk(chords, start=None, weights=None):
    """Edge weights after walking a list of chords (frozensets)."""
    w = {} if weights is None else weights
    last = start
    for c in chords:
        if last is None:
            w[(c, c)] = 1.0
        elif (c, last) in w:
            w[(c, last)] += 1.0
        elif (last, c) in w:
            w[(last, c)] += 1.0
        else:
            w[(last, c)] = 1.0
        last = c
    return w


def rescale(v, lo=32, hi=127):
    if len(v) == 1:
        return [min(max(round(v[0] * (hi - lo) / 127 + lo), lo), hi)]
    a, b = min(v), max(v)
    if a == b:
        return [lo] * len(v)
    return [int(min(max((x - a) * (hi - lo) / (b - a) + lo, 0), 127)) for x in v]
