"""C46: control changes and pitch bends under all words of operations and boundary values."""
import itertools
import math
from ..core import raises

PROP, LEVEL = "C46", "model_checking"
BOUNDS = {
    "quick": "all constructor arguments over boundary values; all words of 1..3 operations over 16 operations from 6 control changes; quantization of all times k/16, k<48, x 7 grids x 5 strengths from fresh and quantized events; all words of 1..3 bend operations over 14 operations; entries of the controller table compared pairwise; copies of every control change reached with 36 combinations of a new time, first and last step",
    "thorough": "as quick with words up to 4 and times up to k<160",
}
ASSUMPTIONS = []
INTS = [-300, -1, 0, 1, 63, 126, 127, 128, 254, 255, 256, 300]
TIMES = [-1.0, -0.0, 0.0, 0.3, 2.0, 100.25]
SPS = [1, 2, 3, 4, 8, 16, 32]
AMT = [0.25, 0.5, 0.75, 1.0, 0.1]
CC0 = [(7, 100, 0.0, 1, 2, False, 4, -1, -1), (64, 0, 1.25, 0, 0, True, 8, -1, -1), (1, 1, 2.6, 3, 3, False, 4, 3, 5),
       (0, 127, 0.4, 0, 9, True, 1, 0, 1), (10, 5, 9.99, 0, 0, False, 32, -1, 4), (2, 3, 0.1, 0, 0, False, 4, 2, -1)]
CCOPS = [["start", -1], ["start", 0], ["start", 2], ["start", 6], ["end", -1], ["end", 0], ["end", 1], ["end", 4], ["end", 9],
         ["step", 0], ["step", 33], ["step", 16], ["quant", 4, 0.5], ["quant", 2, 1.0], ["quant", 33, 0.5], ["copy"]]
COPYARGS = list(itertools.product((None, 0.0, 3.5), (None, -1, 0, 2), (None, -1, 5)))
PBOPS = [["program", -1], ["program", 128], ["program", 5], ["program", 127], ["instrument", -1], ["instrument", 128],
         ["instrument", 0], ["instrument", 127], ["time", -0.5], ["time", -1e-9], ["time", 0.0], ["time", 3.5],
         ["time", 3], ["program", 300]]


def setup():
    global CC, PB, BASE
    from neural_graph_composer.midi.midi_control_change import MidiBaseControlChange as BASE
    from neural_graph_composer.midi.midi_control_change import MidiControlChange as CC
    from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend as PB


def cases(tier):
    th = tier == "thorough"
    for n in INTS:
        yield ["make", n]
        yield ["bend", n]
    for n in (-8193, -8192, -8191, -8190, 8190, 8191, 8192, 9000):
        yield ["bendamount", n]
    for i in range(len(CC0)):
        for n in range(1, (4 if th else 3) + 1):
            for w in itertools.product(range(len(CCOPS)), repeat=n):
                yield ["ccword", i, list(w)]
    for n in range(1, (4 if th else 3) + 1):
        for w in itertools.product(range(len(PBOPS)), repeat=n):
            yield ["pbword", list(w)]
    for k in range(160 if th else 48):
        yield ["quant", k / 16]
    for a in TIMES:
        yield ["order", a]
    for i in range(len(list(values()))):
        yield ["value", i]
    yield ["table"]


def values():
    """constructor arguments that differ in one or several attributes"""
    return itertools.product((7, 8), (1, 2), (0.0, 1.0), (0, 3), (0, 3), (False, True), (4, 8), (-1, 2), (-1, 5, 6))


def att(c):
    return (c.cc_number, c.cc_value, c.cc_time, c.program, c.instrument, c.is_drum, c.quantized_step,
            c.quantized_start_step, c.quantized_end_step, c.is_quantized())


def pbatt(p):
    return (p.amount, p.program, p.instrument, p.midi_time, p.is_drum)


def clamp(x, lo=0, hi=255):
    return min(max(x, lo), hi)


def step_of(t, sps, amount):
    return max(0, int(t * sps + (1 - amount)))


def run_case(case, rec):
    kind = case[0]
    if kind == "make":
        n = case[1]
        for m in INTS:
            for t in TIMES:
                for d in (False, True):
                    rec.step()
                    c = CC(n, m, t, m, n, d)
                    rec.eq(att(c), (clamp(n), clamp(m), max(0.0, t), clamp(m), clamp(n), d, 4, -1, -1, False), "make")
                    k = c.make_copy()
                    rec.eq(att(k), att(c), "copy")
                    rec.check(k == c and not k != c, "copy-eq")
                    rec.state(att(c))
    elif kind == "bend":
        n = case[1]
        for m in INTS:
            for t in TIMES + [None]:
                rec.step()
                e, p = raises(PB, 5, t, n, m, True)
                if not 0 <= n <= 127 or not 0 <= m <= 127 or (t is not None and t < 0):
                    rec.eq(type(e), ValueError, "bend-refuse", f"{n} {m} {t}")
                else:
                    rec.check(e is None, "bend-accept", lambda: f"{e!r}")
                    rec.eq(pbatt(p), (5, n, m, t if t is not None else 0.0, True), "bend-make")
                    rec.eq((p.event_start_time, p.event_end_time), (p.midi_time, p.midi_time), "bend-event")
                    rec.check(p == PB(5, t, n, m, True), "bend-eq")
                    for q in (PB(6, t, n, m, True), PB(5, 7.0, n, m, True), PB(5, t, n, m, False),
                              PB(5, t, (n + 1) % 128, m, True), PB(5, t, n, (m + 1) % 128, True)):
                        rec.check(p != q, "bend-ne", lambda: f"{p} {q}")
                    rec.state(pbatt(p))
    elif kind == "bendamount":
        n = case[1]
        e, p = raises(PB, n, 1.0)
        rec.step()
        if not -8192 <= n <= 8191:
            rec.eq(type(e), ValueError, "amount")
        else:
            rec.eq(p.amount, n, "amount")
        rec.state(n)
    elif kind == "ccword":
        _, i, w = case
        c = CC(*CC0[i])
        m = list(att(c))
        for o in w:
            op = CCOPS[o]
            rec.step()
            before = att(c)
            if op[0] in ("start", "end"):
                attr = "quantized_start_step" if op[0] == "start" else "quantized_end_step"
                e, _ = raises(setattr, c, attr, op[1])
                v, other = op[1], m[8 if op[0] == "start" else 7]
                bad = v < 0 or (other >= 0 and (v >= other if op[0] == "start" else v <= other))
                if bad:
                    rec.eq(type(e), ValueError, "set-step", f"{op} on {before}")
                else:
                    rec.check(e is None, "set-step-accept", lambda: f"{op} on {before}: {e!r}")
                    m[7 if op[0] == "start" else 8] = v
                    m[9] = True
            elif op[0] == "step":
                e, _ = raises(setattr, c, "quantized_step", op[1])
                if 1 <= op[1] <= 32:
                    rec.check(e is None, "set-grid")
                    m[6] = op[1]
                else:
                    rec.eq(type(e), ValueError, "set-grid")
            elif op[0] == "quant":
                q = CC.make_copy(c)
                e, r = raises(c.quantize, op[1], op[2])
                rec.eq(att(c), before, "quantize-copy-touches-source")
                e2, _ = raises(c.quantize_in_place, op[1], op[2])
                if op[1] > 32:
                    rec.check(e is not None and e2 is not None, "quantize-refuse")
                else:
                    rec.check(e is None and e2 is None, "quantize", lambda: f"{op} on {before}: {e!r} {e2!r}")
                    s = step_of(m[2], op[1], op[2])
                    m[6:] = [op[1], s, s + 1, True]
                    rec.eq(att(r), tuple(m), "quantize-copy")
            elif op[0] == "copy":
                for t, a, b in COPYARGS:
                    k = c.make_copy(cc_time=t, quantized_start_step=a, quantized_end_step=b)
                    w = list(att(c))[:9]
                    for at, x in ((2, t), (7, a), (8, b)):
                        if x is not None:
                            w[at] = x
                    rec.eq(att(k)[:9], tuple(w), "copy-with", f"{(t, a, b)} of {before}")
                k = c.make_copy()
                rec.eq(att(k)[:9], att(c)[:9], "copy")
                raises(setattr, k, "quantized_step", 2)
                k.cc_time = 77.0
                k.shift_time(1.0)
                k.cc_value = 3
            rec.eq(att(c), tuple(m), "state", f"after {op} on {before}")
            rec.state(att(c))
        rec.outcome(att(c))
    elif kind == "pbword":
        p = PB(100, 1.0, 3, 4, False)
        m = [3, 4, 1.0]
        for o in case[1]:
            a, v = PBOPS[o]
            rec.step()
            e, _ = raises(setattr, p, {"time": "midi_time"}.get(a, a), v)
            ok = v >= 0 if a == "time" else 0 <= v <= 127
            if ok:
                rec.check(e is None, "bend-set", lambda: f"{a} {v}: {e!r}")
                m[["program", "instrument", "time"].index(a)] = v
            else:
                rec.eq(type(e), ValueError, "bend-set-refuse", f"{a} {v}")
            rec.eq(pbatt(p), (100, m[0], m[1], m[2], False), "bend-state")
            rec.state(pbatt(p))
        rec.outcome(pbatt(p))
    elif kind == "quant":
        t = case[1]
        for sps in SPS:
            for amount in AMT:
                for t2 in (t, t + 0.01, t + 1 / 3):
                    c = CC(7, 100, t2, 1, 2, True)
                    rec.step()
                    r = c.quantize(sps, amount)
                    s = step_of(t2, sps, amount)
                    rec.eq(att(r)[6:], (sps, s, s + 1, True), "grid", f"{t2} {sps} {amount}")
                    rec.eq(att(r)[:6], att(c)[:6], "grid-other")
                    rec.check(r.quantized_start_step <= t2 * sps + 1, "grid-bound")
                    r.quantize_in_place(sps, amount)
                    rec.eq(att(r)[6:], (sps, s, s + 1, True), "grid-again")
                    rec.state((t2, sps, amount))
    elif kind == "value":
        vs = list(values())
        a = vs[case[1]]
        c = CC(*a)
        for b in vs:
            d = CC(*b)
            rec.step()
            rec.eq((c == d, c != d), (a == b, a != b), "value-eq", f"{a} {b}")
        rec.check(not c == "x" and c != None and c != 7, "value-other")  # noqa
        rec.state(a)
        bs = list(itertools.product((-1, 0, 5), (0, 1), (0, 1), (0.0, 2.0), (False, True)))
        if case[1] < len(bs):
            a = bs[case[1]]
            mk = lambda v: PB(v[0], v[3], v[1], v[2], v[4])
            for b in bs:
                rec.step()
                rec.eq((mk(a) == mk(b), mk(a) != mk(b)), (a == b, a != b), "bend-value", f"{a} {b}")
                rec.eq(mk(a) < mk(b), a[0] < b[0], "bend-order", f"{a} {b}")
    elif kind == "table":
        # entries of the table are equal iff number and description are; order is by number
        mk = [(n, d) for n in (1, 2, 100) for d in ("a", "b", "Undefined")]
        for a, b in itertools.product(mk, repeat=2):
            for lo, hi, onoff in ((0, 127, False), (0, 1, True)):
                x, y = BASE(a[0], a[1]), BASE(b[0], description=b[1], cc_min=lo, cc_max=hi, is_onoff=onoff)
                rec.step()
                rec.eq((x == y, x != y, x < y), (a == b, a != b, a[0] < b[0]), "base-eq", f"{a} {b}")
                rec.eq((y.cc_number, y.cc_min, y.cc_max, y.is_onoff), (b[0], lo, hi, onoff), "base")
                rec.eq(y.description, b[1] if b[1] != "Undefined" else f"Undefined {b[0]}", "base-name")
                z = eval(repr(y), {"MidiBaseControlChange": BASE})
                rec.check(z == y and (z.cc_min, z.cc_max, z.is_onoff) == (lo, hi, onoff), "base-repr", lambda: repr(y))
            rec.check(not x == "x" and x != None, "base-other")  # noqa
        for k, v in CC.MIDI_CC_NAME_TO_CC.items():
            rec.step()
            rec.eq((v.cc_number, v.cc_min, v.cc_max), (k, 0, 127), "table")
            rec.check(v.description, "table-name")
        rec.check(set(CC.MIDI_CC_NAME_TO_CC) <= set(range(128)), "table-range")
        on = [k for k, v in CC.MIDI_CC_NAME_TO_CC.items() if v.is_onoff]
        rec.check({64, 65, 66, 67, 69} <= set(on), "table-switches", str(on))
    elif kind == "order":
        a = case[1]
        for b in TIMES + [a + 1e-12]:
            for s, s2 in itertools.product((0, 1, 2), repeat=2):
                x, y = CC(9, 1, a), CC(3, 2, b)
                x.seq, y.seq = s, s2
                rec.step()
                ta, tb = x.cc_time, y.cc_time
                want = s < s2 if math.isclose(ta, tb) else ta < tb
                rec.eq(x < y, want, "order", f"{a} {b} {s} {s2}")
            rec.state((a, b))
