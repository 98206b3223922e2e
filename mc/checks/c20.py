"""C20: signature in force after all interleavings of additions and queries."""
import itertools
from ..core import raises

PROP, LEVEL = "C20", "model_checking"
BOUNDS = {
    "quick": "all words of up to 6 of 6 operations (additions at 4 times, an addition to a second piece, queries) per signature kind and of up to 4 of 13 operations mixing the kinds, from 4 initial lists; queries at 9 times; all words of up to 5 of 6 operations that add a signature, or one object, to two pieces",
    "thorough": "all words of up to 7 of 6 operations per signature kind and of up to 5 of 13 operations mixing the kinds, from 4 initial lists; queries at 9 times",
}
ASSUMPTIONS = ["signatures are added through the piece, at times at least a millisecond apart or equal"]
Q = [0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 100]
ADD = [0.0, 1.0, 2.0, 0.5]
INIT = ["default", "zero", "later", "empty"]


def setup():
    global Piece, TS, TP, KS, KT
    from neural_graph_composer.midi.midi_sequences import MidiNoteSequences as Piece
    from neural_graph_composer.midi.midi_time_signature import MidiTimeSignature as TS, MidiTempoSignature as TP
    from neural_graph_composer.midi.midi_key_signature import MidiKeySignature as KS, KeySignatureType as KT


def cases(tier):
    th = tier == "thorough"
    for init in INIT:
        for kind in "tkp":
            ops = [["add", 0, kind, x] for x in ADD] + [["add", 1, kind, 1.0], ["q"]]
            for n in range(1, (7 if th else 6) + 1):
                if n > 4 and init not in ("default", "empty"):
                    continue
                for w in itertools.product(range(len(ops)), repeat=n - 1):
                    yield [init, kind, list(w)]
        if init in ("default", "empty"):
            for kind in "tkp":
                for n in range(1, (7 if th else 5) + 1):
                    for w in itertools.product(range(6), repeat=n - 1):
                        yield [init, "+" + kind, list(w)]
        for n in range(1, (5 if th else 4) + 1):
            for w in itertools.product(range(13), repeat=n - 1):
                yield [init, "mix", list(w)]


def mk(kind, t, i):
    if kind == "t":
        return TS(t, numerator=1 + i, denominator=2 ** (i % 4)), (1 + i, 2 ** (i % 4))
    if kind == "k":
        return KS(t, midi_key=i - 6, midi_mode=i % 2), (KT.MINOR if i % 2 else KT.MAJOR, i - 6)
    return TP(t, qpm=60.0 + 7.5 * i, resolution=100 + i), (int(60.0 + 7.5 * i), 100 + i)


DEF = {"t": (4, 4), "p": (120, 480), "k": None}


def query(p, m, rec, ctx):
    for x in Q:
        for kind, f in (("t", p.time_signature), ("k", p.key_signature), ("p", p.tempo_signature)):
            want = DEF[kind]
            for t, v in m[kind]:
                if t <= x:
                    want = v
            got = f(x)
            if want is None:
                continue                     # no key known: nothing to agree on
            rec.check(tuple(got) == tuple(want), "in-force-" + kind, lambda: f"{ctx}: at {x} got {got}, expected {want}")
    if m["p"]:
        z = [v for t, v in m["p"] if t == 0.0] or [m["p"][0][1]]
        rec.eq(int(p.initial_tempo()), z[0][0], "initial-tempo", ctx)


def shared(init, kind, w, rec):
    """one signature object added to two pieces"""
    for last in range(6):
        P = [Piece() if init == "default" else Piece(time_signatures=[], key_signatures=[], tempo_signatures=[]) for _ in range(2)]
        first = {"t": (4, 4), "k": (KT.MAJOR, 0), "p": (120, 480)}
        M = [{x: ([(0.0, first[x])] if init == "default" else []) for x in "tkp"} for _ in range(2)]
        held = [[], []]
        word = w + [last]
        ctx = f"{init} {kind} {word}"
        for i, o in enumerate(word):
            rec.step()
            if o < 4:
                j, t = o % 2, 1.0 + o // 2
                obj, v = mk(kind, t, i)
            else:
                j = o - 4
                fit = [h for h in held[1 - j] if not any(h[0] is x[0] for x in held[j])]
                if not fit:
                    continue
                obj, v, t = fit[-1]
            e, _ = raises({"t": P[j].add_time_signatures, "k": P[j].add_key_signatures, "p": P[j].add_tempo_signature}[kind], obj)
            rec.check(e is None, "add", lambda: f"{ctx}: {e!r}")
            held[j].append((obj, v, t))
            L = M[j][kind]
            if L and L[0][0] == t:
                L[0] = (t, v)
            else:
                L.insert(max([q + 1 for q, x in enumerate(L) if x[0] <= t], default=0), (t, v))
        for j in range(2):
            query(P[j], M[j], rec, ctx)
        rec.state(repr(M))


def run_case(case, rec):
    init, kind, w = case
    if kind[0] == "+":
        return shared(init, kind[1], w, rec)
    if kind == "mix":
        ops = [["add", 0, k, x] for k in "tkp" for x in ADD[:3]] + [["add", 1, k, 1.0] for k in "tkp"] + [["q"]]
    else:
        ops = [["add", 0, kind, x] for x in ADD] + [["add", 1, kind, 1.0], ["q"]]
    for last in range(len(ops)):
        P, M = [], []
        for j in range(2):
            if init == "default":
                P.append(Piece())
                M.append({"t": [(0.0, (4, 4))], "k": [(0.0, (KT.MAJOR, 0))], "p": [(0.0, (120, 480))]})
            elif init == "empty":
                P.append(Piece(time_signatures=[], key_signatures=[], tempo_signatures=[]))
                M.append({"t": [], "k": [], "p": []})
            else:
                t = 0.0 if init == "zero" else 1.0
                L = {k: mk(k, t, 10 + j) for k in "tkp"}
                P.append(Piece(time_signatures=[L["t"][0]], key_signatures=[L["k"][0]], tempo_signatures=[L["p"][0]]))
                M.append({k: [(t, L[k][1])] for k in "tkp"})
        word = w + [last]
        ctx = f"{init} {[ops[o] for o in word]}"
        for i, o in enumerate(word):
            op = ops[o]
            rec.step()
            if op[0] == "q":
                for j in range(2):
                    query(P[j], M[j], rec, ctx)
                continue
            _, j, k, t = op
            obj, v = mk(k, t, i)
            e, _ = raises({"t": P[j].add_time_signatures, "k": P[j].add_key_signatures, "p": P[j].add_tempo_signature}[k], obj)
            rec.check(e is None, "add", lambda: f"{ctx}: {e!r}")
            L = M[j][k]
            if L and L[0][0] == t:
                L[0] = (t, v)
            else:
                pos = max([q + 1 for q, x in enumerate(L) if x[0] <= t], default=0)
                L.insert(pos, (t, v))
        for j in range(2):
            query(P[j], M[j], rec, ctx)
            p = P[j]
            got = ([(s.midi_time, (s.numerator, s.denominator)) for s in p.time_signatures],
                   [(s.midi_time, (s.mode, s.midi_key)) for s in p.key_signatures],
                   [(s.midi_time, (int(s.qpm), s.resolution)) for s in p.tempo_signatures])
            rec.eq(got, (M[j]["t"], M[j]["k"], M[j]["p"]), "stored", ctx)
        rec.state(repr(M))
        rec.outcome(repr(M[0]))
        p.time_signature.cache_clear()
        p.key_signature.cache_clear()
        p.tempo_signature.cache_clear()
