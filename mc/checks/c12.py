"""C12: quantization of notes over a lattice of times, grids and strengths, repeatedly."""
import itertools
import warnings
from .. import nmodel as nm
from ..core import raises

PROP, LEVEL = "C12", "model_checking"
BOUNDS = {
    "quick": "all notes with ends on the 1/16 s lattice up to 2 s and at 3 later offsets x 7 grids x 4 strengths, each followed by every second quantization; notes with ends 1e-7 to 1e-4 s around the grid, and as late as step 777777",
    "thorough": "all notes with ends on the 1/32 s lattice up to 2 s and at 3 later offsets x 10 grids x 4 strengths, each followed by every second quantization; and thirds",
}
ASSUMPTIONS = ["times of at most a million steps and 900000 s"]
SPS = [1, 2, 3, 4, 5, 8, 16, 10, 100, 25]
AMT = [0.25, 0.5, 0.75, 1.0]


def setup():
    global MidiNote
    warnings.simplefilter("ignore")
    from neural_graph_composer.midi.midi_note import MidiNote


def cases(tier):
    th = tier == "thorough"
    k = 32 if th else 16
    for off in (0.0, 3.0, 60.0, 500.5):
        for a in range(2 * k):
            yield ["lat", off, a, k, 10 if th else 7]
    if th:
        for a in range(30):
            yield ["lat", 0.0, a, 15, 7]
    yield ["bad"]
    for sps in SPS[:10 if th else 7] + [10]:
        yield ["near", sps]
        yield ["far", sps]


def check(n, o, sps, amount, rec, ctx):
    """n is o = (start, end) quantized"""
    a, b = n.quantized_start_step, n.quantized_end_step
    s, e, wa, wb = nm.quantized(o[0], o[1], sps, amount)
    rec.check(a == wa and b == wb, "steps", lambda: f"{ctx}: got {a},{b} expected {wa},{wb}")
    rec.check(0 <= a < b, "steps-order", ctx)
    rec.check(0 <= n.start_time < n.end_time, "times-order", lambda: f"{ctx}: {n.start_time} {n.end_time}")
    rec.check(nm.close(n.start_time, s) and nm.close(n.end_time, e), "times",
              lambda: f"{ctx}: got {n.start_time},{n.end_time} expected {s},{e}")
    rec.check(n.is_quantized(), "flag")
    if amount == 1.0:
        rec.check(n.start_time <= o[0] + 1e-9 and n.end_time >= o[1] - 1e-9, "cover", lambda: f"{ctx}: {n}")
        for t, k in ((n.start_time, a), (n.end_time, b)):
            rec.check(abs(t - k / sps) <= 1e-9, "on-grid", lambda: f"{ctx}: {t} is not step {k}")


def run_case(case, rec):
    if case[0] == "bad":
        for sps, am in ((0, 0.5), (-1, 0.5), (4, 0), (4, -0.5), (0, 0)):
            n = MidiNote(60, 0.3, 1.7)
            rec.step()
            rec.eq(type(raises(n.quantize, sps, am)[0]), ValueError, "refuse", f"{sps} {am}")
            rec.eq(type(raises(n.quantize_in_place, sps, am)[0]), ValueError, "refuse-in-place", f"{sps} {am}")
            rec.eq(nm.att(n), nm.att(MidiNote(60, 0.3, 1.7)), "refused-changes")
            rec.eq(type(raises(MidiNote.quantize_to_nearest_step, 1.0, sps, am)[0]), ValueError, "refuse-step")
        return
    if case[0] in ("near", "far"):
        sps = case[1]
        if case[0] == "near":                  # just before and just after the grid
            ts = [x / sps + d for x in (1, 2, 3, 7, 11, 30) for d in (-1e-4, -2e-6, -1e-7, 0, 1e-7, 2e-6, 1e-4)]
        else:                                  # as late as positions of a million steps
            ts = [x / sps + d for x in (9999, 33333, 123457, 300001, 777777) if x / sps < 9e5 for d in (0, 0.01, 0.4)]
        for s, e in itertools.combinations(sorted(set(ts)), 2):
            if e - s < 1e-5 or (case[0] == "far" and e - s > 200):
                continue
            for amount in AMT:
                n = MidiNote(60, s, e)
                q = n.quantize(sps, amount)
                rec.step()
                ctx = f"[{s!r}, {e!r}] at {sps} steps/s strength {amount}"
                check(q, (s, e), sps, amount, rec, ctx)
                if amount == 1.0:
                    rec.check(nm.same(nm.att(q.quantize(sps, amount)), nm.att(q)), "idempotent", ctx)
                rec.state((s, e, sps, amount))
        return
    _, off, a, k, ns = case
    for b in range(a + 1, 2 * k + 1):
        s, e = off + a / k, off + b / k
        for sps in SPS[:ns]:
            for amount in AMT:
                n = MidiNote(60, s, e, program=7, instrument=5, velocity=33, voice=2, numerator=3, denominator=8, is_drum=True)
                before = nm.att(n)
                q = n.quantize(sps, amount)
                rec.step()
                ctx = f"[{s}, {e}] at {sps} steps/s strength {amount}"
                rec.eq(nm.att(n), before, "source-changed", ctx)
                check(q, (s, e), sps, amount, rec, ctx)
                rec.eq(nm.att(q)[:4] + nm.att(q)[8:], before[:4] + before[8:], "other-attributes", ctx)
                n.quantize_in_place(sps, amount)
                rec.eq(nm.att(n), nm.att(q), "in-place", ctx)
                rec.state((s, e, sps, amount))
                if b - a > 6 and b % 4:
                    continue
                for sps2, am2 in itertools.product(SPS[:ns], AMT):
                    if am2 not in (amount, 1.0) or (off and sps2 != sps):
                        continue
                    q2 = q.quantize(sps2, am2)
                    rec.step()
                    c2 = f"{ctx} then {sps2} strength {am2}"
                    check(q2, (q.start_time, q.end_time), sps2, am2, rec, c2)
                    if sps2 == sps and am2 == amount == 1.0:
                        rec.eq(nm.att(q2), nm.att(q), "idempotent", c2)
                rec.outcome((q.start_time, q.end_time))
