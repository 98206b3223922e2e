"""C16: stretching, shifting and cloning: all operation words applied to a track and its clone."""
import itertools
from .. import nmodel as nm, tmodel as tm
from ..core import raises

PROP, LEVEL = "C16", "model_checking"
OPS = [["stretch", 2.0], ["stretch", 0.5], ["stretch", 1.0], ["shift", 1.0], ["shift", 0.25], ["shift", -0.25], ["append"],
       ["pitch"], ["noteshift"], ["cc"], ["ccset"], ["bend"], ["cut"], ["quant"]]
BOUNDS = {
    "quick": "all words of up to 3 of 14 operations, each on the source or on the clone, from 4 tracks, clone taken before or between; all pairs of inverse stretches and shifts",
    "thorough": "all words of up to 4 of 14 operations, each on the source or on the clone, from 4 tracks",
}
ASSUMPTIONS = ["offsets do not move a note before time zero", "factors and offsets are binary fractions"]
TR = [([], False), ([0, 1], False), ([1, 0, 3], True), ([4], False)]


def setup():
    global MidiNoteSequence, CC, PB
    from neural_graph_composer.midi.midi_sequence import MidiNoteSequence
    from neural_graph_composer.midi.midi_control_change import MidiControlChange as CC
    from neural_graph_composer.midi.midi_pitch_bend import MidiPitchBend as PB


def cases(tier):
    for t in range(len(TR)):
        yield ["inv", t]
        for n in range(1, (4 if tier == "thorough" else 3) + 1):
            for w in itertools.product(range(len(OPS)), repeat=n - 1):
                for who in itertools.product((0, 1), repeat=n - 1):
                    yield ["word", t, list(w), list(who)]


def start(t):
    idx, drum = TR[t]
    s = tm.track([tm.POOL[i] for i in idx], drum, resolution=96)
    s.add_control_changes(CC(7, 100, 0.5, 3, 1, drum))
    s.add_pitch_bends(PB(100, 0.25, 3, 1))
    return s


def look(s):
    return dict(notes=tm.atts(s), cc=[tm.cc_att(c) + (c.quantized_start_step,) for c in s.control_changes],
                pb=[(p.amount, p.midi_time) for p in s.pitch_bends], ins=s.instrument, res=s.resolution,
                total=s.total_time, n=len(s), steps=s.total_quantized_steps)


def quantized(m):
    return all(a[6] >= 0 and a[7] >= 0 for a in m["notes"])


def apply(s, m, op, drum, rec):
    k = op[0]
    N = m["notes"]
    e = None
    if k == "stretch":
        s.stretch(op[1])
        m["notes"] = [a[:4] + (a[4] * op[1], a[5] * op[1]) + a[6:] for a in N]
    elif k == "shift":
        if quantized(m) or any(a[4] + op[1] < 0 for a in N):
            if quantized(m) and N:
                e, _ = raises(s.shift_times, op[1])
                rec.check(e is not None, "shift-refuse")
            return
        s.shift_times(op[1])
        m["notes"] = [a[:4] + (a[4] + op[1], a[5] + op[1]) + a[6:] for a in N]
    elif k == "append":
        n = tm.note(tm.POOL[3], drum)
        s.append(n)
        m["notes"] = N + [nm.att(n)]
    elif k == "pitch" and N:
        s[0].pitch = 11
        m["notes"] = [(11,) + N[0][1:]] + N[1:]
    elif k == "noteshift" and N:
        s[0].shift_time(0.5)
        a = N[0]
        m["notes"] = [a[:4] + (a[4] + 0.5, a[5] + 0.5) + a[6:]] + N[1:]
        s.notes = s.notes
    elif k == "cc":
        s.add_control_changes(CC(64, 1, 2.0))
        m["cc"] = m["cc"] + [(64, 1, 2.0, 0, 0, False, -1)]
    elif k == "ccset" and m["cc"]:
        s.control_changes[0].cc_value = 5
        m["cc"] = [(m["cc"][0][0], 5) + m["cc"][0][2:]] + m["cc"][1:]
    elif k == "bend":
        s.pitch_bends[0].midi_time = 9.0
        m["pb"] = [(m["pb"][0][0], 9.0)] + m["pb"][1:]
    elif k == "cut":
        s.cut_in_place(1)
        m["notes"] = N[:1]
    elif k == "quant":
        s.quantize(4, 1.0)
        m["notes"] = [a[:4] + nm.quantized(a[4], a[5], 4, 1.0) + a[8:] for a in N]
        m["cc"] = [c[:6] + (max(0, int(c[2] * 4)),) for c in m["cc"]]
        m["steps"] = max([a[7] for a in m["notes"]], default=0)
    m["n"] = len(m["notes"])
    m["total"] = tm.latest(m["notes"])


def same(g, m, rec, key, ctx):
    for f in m:
        if f == "notes":
            rec.check(len(g[f]) == len(m[f]) and all(nm.same(x, y) for x, y in zip(g[f], m[f])), key, lambda: f"{ctx} {f}: {g[f]} vs {m[f]}")
        elif f == "total":
            rec.check(nm.close(g[f], m[f]), key, lambda: f"{ctx} {f}: {g[f]} vs {m[f]}")
        else:
            rec.eq(g[f], m[f], key, f"{ctx} {f}")


def run_case(case, rec):
    if case[0] == "inv":
        t = case[1]
        for f in (0.125, 0.5, 1.0, 2.0, 4.0, 16.0):
            s = start(t)
            a = look(s)
            s.stretch(f)
            b = look(s)
            rec.eq([x[:4] + (x[4] / f, x[5] / f) + x[6:] for x in b["notes"]], a["notes"], "stretch")
            s.stretch(1 / f)
            rec.eq(look(s), a, "stretch-inverse")
            rec.step(2)
            if a["notes"]:
                s.shift_times(f)
                s.shift_times(-f)
                rec.eq(look(s), a, "shift-inverse")
            rec.state((t, f))
        return
    _, t, w, who = case
    drum = TR[t][1]
    for last in range(len(OPS)):
        for lw in (0, 1):
            word = list(zip(w + [last], who + [lw]))
            src = start(t)
            cl = src.clone()
            ms, mc = look(src), look(src)
            same(look(cl), ms, rec, "clone-equal", f"clone of track {t}")
            for o, x in word:
                ctx = f"{[(OPS[a], 'clone' if b else 'source') for a, b in word]} at {OPS[o]}"
                apply(cl if x else src, mc if x else ms, OPS[o], drum, rec)
                rec.step()
                same(look(src), ms, rec, "source", ctx)
                same(look(cl), mc, rec, "clone", ctx)
            # the clone of a changed track, and an empty clone
            again = src.clone()
            same(look(again), ms, rec, "clone-later", f"{word}")
            e = src.clone_empty()
            rec.eq((tm.atts(e), e.instrument, e.resolution), ([], src.instrument, src.resolution), "clone-empty")
            rec.state(repr((ms, mc)))
            rec.outcome(tuple(a[4] for a in mc["notes"]))
