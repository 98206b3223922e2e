"""C11: order, equality, overlap, copies and decoding over all pairs and triples of notes."""
import itertools
import json
import warnings
from .. import nmodel as nm
from ..core import raises

PROP, LEVEL = "C11", "model_checking"
BOUNDS = {
    "quick": "all pairs and triples of 84 notes (starts x lengths x pitches), all pairs of them with each other attribute different on either side, all pairs of single-attribute variants, all subsets of optional keys decoded, all permutations of 5 notes sorted",
    "thorough": "all pairs and triples of 160 notes, permutations of 7 notes sorted, all subsets of optional keys decoded",
}
ASSUMPTIONS = ["times differ by more than a microsecond or not at all"]
FULL = dict(pitch=60, start_time=0.5, end_time=1.75, program=3, instrument=4, velocity=55, quantized_start_step=2,
            quantized_end_step=7, voice=1, numerator=3, denominator=8, is_drum=True)
ALT = dict(pitch=61, start_time=0.75, end_time=1.5, program=5, instrument=6, velocity=54, quantized_start_step=1,
           quantized_end_step=8, voice=2, numerator=4, denominator=4, is_drum=False)
OPT = ["quantized_start_step", "quantized_end_step", "voice", "numerator", "denominator", "is_drum"]
# attributes that take no part in the order
SIDE = {k: (FULL[k], ALT[k]) for k in ("program", "instrument", "velocity", "voice", "numerator", "denominator", "is_drum",
                                       "quantized_start_step", "quantized_end_step")}
DEF = dict(program=0, instrument=0, velocity=127, quantized_start_step=-1, quantized_end_step=-1, voice=0, numerator=4,
           denominator=4, is_drum=False)


def setup():
    global MidiNote, Dec
    warnings.simplefilter("ignore")
    from neural_graph_composer.midi.midi_note import MidiNote, MidiNoteJSONDecoder as Dec


def grid(tier):
    S = [0.0, 0.5, 0.500002, 0.5000035, 1.0, 1000.0, 1000.000005] if tier != "thorough" else [0.0, 0.5, 0.500002, 0.5000035, 1.0, 7.25, 1000.0, 1000.000005]
    L = [0.25, 0.2500015, 0.5, 1.5] if tier != "thorough" else [0.25, 0.2500015, 0.5, 0.50001, 1.5]
    return [(s, s + l, p) for s in S for l in L for p in ((60, 61, 0) if tier != "thorough" else (60, 61, 0, 127))]


def cases(tier):
    G = grid(tier)
    for i in range(len(G)):
        yield ["order", tier, i]
    yield ["variants"]
    for r in range(len(OPT) + 1):
        for sub in itertools.combinations(OPT, r):
            yield ["decode", list(sub)]
    for o in itertools.permutations(range(7 if tier == "thorough" else 5)):
        yield ["sort", list(o)]


def run_case(case, rec):
    kind = case[0]
    if kind == "order":
        G = grid(case[1])
        mk = lambda g, more={}: MidiNote(g[2], g[0], g[1], **more)
        a = G[case[2]]
        A = mk(a)
        for b in G:
            B = mk(b)
            rec.step()
            rec.state((a, b))
            rec.check((A < B) == (a < b), "lt", lambda: f"{a} {b}")
            rec.check((A > B) == (a > b), "gt", lambda: f"{a} {b}")
            rec.check((A <= B) == (a[:2] <= b[:2]), "le", lambda: f"{a} {b}")
            rec.check((A == B) == (a == b) and (A != B) == (a != b), "eq", lambda: f"{a} {b}")
            ov = max(a[0], b[0]) < min(a[1], b[1])
            rec.check(A.overlaps(B) == ov, "overlap", lambda: f"{a} {b}: {A.overlaps(B)}")
            for k, (u, v) in SIDE.items():
                A2, B2 = mk(a, {k: u}), mk(b, {k: v})
                rec.step()
                for P, Q, p, q in ((A2, B, a, b), (A, B2, a, b), (A2, B2, a, b)):
                    rec.check((P < Q) == (p < q) and (P > Q) == (p > q), "order-by-others", lambda: f"{p} {q} {k}")
                    rec.check((P <= Q) == (p[:2] <= q[:2]), "le-by-others", lambda: f"{p} {q} {k}")
                    rec.check(P.overlaps(Q) == ov, "overlap-by-others", lambda: f"{p} {q} {k}")
            for c in G:
                rec.eq([(n.start_time, n.end_time, n.pitch) for n in sorted([A, B, mk(c)])], sorted([a, b, c]), "sorted")
        rec.check(A != 3 and not A == None and A != (60, 0, 1), "eq-other")  # noqa
    elif kind == "variants":
        V = [dict(FULL)] + [dict(FULL, **{k: v}) for k, v in ALT.items()]
        for x, y in itertools.product(V, repeat=2):
            rec.step()
            X, Y = MidiNote(**x), MidiNote(**y)
            rec.check((X == Y) == (x == y), "eq-attribute", lambda: f"{x} {y}")
            rec.check((X != Y) == (x != y), "ne-attribute")
            rec.state((tuple(x.values()), tuple(y.values())))
        for x in V + [ALT]:
            X = MidiNote(**x)
            before = nm.att(X)
            rec.eq(before, att_of(x), "attributes")
            C = X.make_copy()
            rec.check(C == X and C is not X, "copy")
            rec.eq(nm.att(C), before, "copy-attributes")
            C.pitch = 1
            C.start_time = 0.0
            C.end_time = 9.0
            C.program = 9
            C.quantized_start_step = 90
            C.quantized_end_step = 91
            C.voice = 7
            C.shift_time(1.0)
            C.stretch(2.0)
            C.quantize_in_place(4)
            rec.eq(nm.att(X), before, "copy-aliases")
            C = X.make_copy(quantized_start_step=11, quantized_end_step=12)
            rec.eq(nm.att(C), before[:6] + (11, 12) + before[8:], "copy-steps")
            C = X.make_copy(quantized_end_step=0)
            rec.eq(nm.att(C), before[:7] + (0,) + before[8:], "copy-step-zero")
    elif kind == "decode":
        d = {k: v for k, v in FULL.items() if k not in case[1]}
        want = dict(DEF, **d)
        rec.step()
        zero = dict(ALT, pitch=0, start_time=0.0, program=0, instrument=0, velocity=0, quantized_start_step=0, quantized_end_step=0, voice=0)
        for src in (FULL, ALT, zero):
            d = {k: v for k, v in src.items() if k not in case[1]}
            want = att_of(dict(DEF, **d))
            rec.eq(nm.att(MidiNote.from_json(dict(d))), want, "from-json", f"without {case[1]}")
            text = json.dumps({"__MidiNote__": True, "data": d})
            for t in (text, text.encode()):
                rec.eq(nm.att(Dec().decode(t)), want, "decoder", f"without {case[1]}")
            lst = Dec().decode(json.dumps([{"__MidiNote__": True, "data": d}, {"x": 1}]))
            rec.eq(nm.att(lst[0]), want, "decoder-list")
            rec.eq(lst[1], {"x": 1}, "decoder-other")
            rec.check(MidiNote.from_json(d) == MidiNote(**d), "from-json-eq")
        rec.state(tuple(case[1]))
    else:
        base = [(0.0, 1.0, 60), (0.0, 1.0, 50), (0.0, 0.5, 70), (1.0, 2.0, 10), (0.5, 3.0, 64), (0.5, 2.5, 64), (2.0, 2.5, 1)]
        ns = [base[i] for i in case[1]]
        rec.step()
        got = [(n.start_time, n.end_time, n.pitch) for n in sorted(MidiNote(p, s, e) for s, e, p in ns)]
        rec.eq(got, sorted(ns), "sort")
        rec.state(tuple(case[1]))


def att_of(d):
    return (d["pitch"], d["velocity"], d["program"], d["instrument"], d["start_time"], d["end_time"],
            d["quantized_start_step"], d["quantized_end_step"], d["voice"], d["numerator"], d["denominator"], d["is_drum"])
