"""C10: notes under all words of attribute changes and time operations."""
import itertools
import warnings
from .. import nmodel as nm
from ..core import raises

PROP, LEVEL = "C10", "model_checking"
BOUNDS = {
    "quick": "all constructor arguments over boundary values; all words of 1..3 operations over 37 operations from 5 initial notes; every stretch and shift of 6 notes as short as a ten-millionth of a second",
    "thorough": "as quick; all words of 1..4 operations over 37 operations",
}
ASSUMPTIONS = ["shift and stretch arguments keep the start non-negative and the order of the ends"]
VALS = [-200, -1, 0, 1, 64, 126, 127, 128, 254, 255, 256, 999]
N0 = [dict(pitch=60, start_time=0.0, end_time=1.0), dict(pitch=0, start_time=1.0, end_time=1.5, velocity=0, program=255, instrument=127),
      dict(pitch=127, start_time=0.25, end_time=4.0, is_drum=True, numerator=3, denominator=8, voice=2),
      dict(pitch=61, start_time=2.0, end_time=2.125, quantized_start_step=8, quantized_end_step=9),
      dict(pitch=62, start_time=0, end_time=3, quantized_start_step=0, quantized_end_step=0)]
OPS = ([["pitch", v] for v in (-1, -0.25, 0, 127, 127.25, 128)] + [["program", v] for v in (-1, -0.25, 0, 255, 255.25, 256)] +
       [["start", v] for v in (-0.5, 0.0, 0.5, 1.25, 4.0, 6.0)] + [["end", v] for v in (-1.0, 0.0, 0.25, 1.25, 5.0)] +
       [["qs", v] for v in (-1, 0, 3)] + [["qe", v] for v in (-2, 0, 5)] +
       [["shift", v] for v in (0.5, 0.0, 2)] + [["stretch", v] for v in (0.5, 2.0)] + [["quant", 4, 1.0], ["quant", 2, 0.5], ["badq"]])

SHORT = [1e-7, 3e-7, 1e-6, 1.5e-6, 1e-4, 0.0123456789]


def setup():
    global MidiNote
    warnings.simplefilter("ignore")
    from neural_graph_composer.midi.midi_note import MidiNote


def cases(tier):
    for f in ("pitch", "velocity", "program", "instrument"):
        for v in VALS:
            yield ["make", f, v]
    yield ["badmake"]
    for l in SHORT:
        yield ["short", l]
    for i in range(len(N0)):
        for n in range(1, (4 if tier == "thorough" else 3) + 1):
            for w in itertools.product(range(len(OPS)), repeat=n):
                yield ["word", i, list(w)]


def clamp(v, hi):
    return min(max(v, 0), hi)


def valid(n, rec, ctx):
    rec.check(0 <= n.pitch <= 127 and 0 <= n.velocity <= 127 and 0 <= n.program <= 255 and 0 <= n.instrument <= 127,
              "range", lambda: f"{ctx}: {nm.att(n)}")
    rec.check(0 <= n.start_time < n.end_time, "times", lambda: f"{ctx}: {nm.att(n)}")
    rec.eq(n.pitch_name, nm.pitch_name(n.pitch), "pitch-name", f"{ctx}")
    rec.check(nm.close(n.duration(), n.end_time - n.start_time), "duration")
    rec.eq(n.is_quantized(), n.quantized_start_step >= 0 and n.quantized_end_step >= 0, "is-quantized")


def run_case(case, rec):
    kind = case[0]
    if kind == "make":
        _, f, v = case
        for w in VALS:
            g = "velocity" if f != "velocity" else "pitch"
            rec.step()
            n = MidiNote(**{"pitch": 60, "start_time": 1.0, "end_time": 2.0, f: v, g: w})
            for more in (dict(is_drum=True), dict(voice=3, numerator=255, denominator=128), dict(quantized_start_step=0, quantized_end_step=4)):
                k = MidiNote(**{"pitch": 60, "start_time": 1.0, "end_time": 2.0, f: v, g: w, **more})
                valid(k, rec, f"new {more}")
                rec.eq((k.pitch, k.velocity, k.program, k.instrument), (n.pitch, n.velocity, n.program, n.instrument), "clamp-with", f"{f} {v} {g} {w} {more}")
            hi = {"pitch": 127, "velocity": 127, "program": 255, "instrument": 127}
            rec.eq(getattr(n, f), clamp(v, hi[f]), "clamp", f"{f} {v}")
            rec.eq(getattr(n, g), clamp(w, hi[g]), "clamp", f"{g} {w}")
            valid(n, rec, "new")
            rec.state(nm.att(n))
        return
    if kind == "short":
        for start in (0.0, 1e-7, 0.5, 1.0, 7.0):
            for op, v in [("stretch", v) for v in (0.1, 0.5, 1.0, 2.0, 3.0)] + [("shift_time", v) for v in (0.0, 1e-7, 0.125, 2.0)]:
                n = MidiNote(60, start, start + case[1])
                a, b = n.start_time, n.end_time
                e, _ = raises(getattr(n, op), v)
                rec.step()
                want = (a * v, b * v) if op == "stretch" else (a + v, b + v)
                rec.check(e is None, "short-refused", lambda: f"{op} {v} of {a}..{b}: {e!r}")
                valid(n, rec, f"{op} {v} of {a}..{b}")
                rec.check(all(abs(x - y) <= 1e-12 * max(1, y) for x, y in zip((n.start_time, n.end_time), want)), "short-times",
                          lambda: f"{op} {v} of {a}..{b}: {n.start_time}..{n.end_time}, expected {want}")
                rec.state((op, v, a, b))
        return
    if kind == "badmake":
        for a, b in ((1.0, 1.0), (2.0, 1.0), (0.0, -1.0)):
            rec.check(raises(MidiNote, 60, a, b)[0] is not None, "empty-note", f"{a} {b}")
        for num in (0, -1, 2.5):
            rec.check(raises(MidiNote, 60, 0.0, 1.0, numerator=num)[0] is not None, "numerator", f"{num}")
        for d in (0, 3, -4, 6, 2.0, 12):
            rec.check(raises(MidiNote, 60, 0.0, 1.0, denominator=d)[0] is not None, "denominator", f"{d}")
        for d in (1, 2, 4, 8, 16, 32, 64, 128):
            rec.eq(MidiNote(60, 0.0, 1.0, denominator=d).denominator, d, "denominator-ok")
        rec.step(20)
        return
    _, i, w = case
    n = MidiNote(**N0[i])
    m = list(nm.att(n))
    for o in w:
        op = OPS[o]
        rec.step()
        before = nm.att(n)
        name = op[0]
        if name in ("pitch", "program"):
            e, _ = raises(setattr, n, name, op[1])
            k, hi = (0, 127) if name == "pitch" else (2, 255)
            ok = 0 <= op[1] <= hi
            if ok:
                m[k] = op[1]
        elif name in ("start", "end"):
            e, _ = raises(setattr, n, name + "_time", op[1])
            ok = op[1] >= 0 and (op[1] < m[5] if name == "start" else op[1] > m[4])
            if ok:
                m[4 if name == "start" else 5] = op[1]
        elif name in ("qs", "qe"):
            e, _ = raises(setattr, n, "quantized_start_step" if name == "qs" else "quantized_end_step", op[1])
            ok = op[1] >= 0
            if ok:
                m[6 if name == "qs" else 7] = op[1]
        elif name == "shift":
            e, _ = raises(n.shift_time, op[1])
            ok = True
            m[4] += op[1]
            m[5] += op[1]
        elif name == "stretch":
            e, _ = raises(n.stretch, op[1])
            ok = True
            m[4] *= op[1]
            m[5] *= op[1]
        elif name == "quant":
            e, c = raises(n.quantize, op[1], op[2])
            rec.check(nm.same(nm.att(n), before), "quantize-copy-touches-source")
            rec.check(e is None, "quantize-copy", lambda: f"{op} on {before}: {e!r}")
            e, _ = raises(n.quantize_in_place, op[1], op[2])
            ok = True
            m[4:8] = nm.quantized(m[4], m[5], op[1], op[2])
            rec.check(nm.same(nm.att(c), tuple(m)), "quantize-copy-result", lambda: f"{op} on {before}: {nm.att(c)} vs {m}")
        else:
            e, _ = raises(n.quantize_in_place, *(0, 1.0) if m[0] % 2 else (4, 0))
            ok = False
        rec.check((e is None) == ok, "accept" if ok else "refuse", lambda: f"{op} on {before}: {e!r}")
        rec.check(nm.same(nm.att(n), tuple(m)), "state", lambda: f"{op} on {before}: {nm.att(n)}, expected {m}")
        valid(n, rec, f"{op}")
        rec.state(nm.att(n))
    rec.outcome(nm.att(n))
