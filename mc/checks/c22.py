"""C22: signature and event listings for all small lists and bounds."""
import itertools
from .. import nmodel as nm, tmodel as tm

PROP, LEVEL = "C22", "model_checking"
TIMES = [0.0, 0.5, 1.0, 2.0, 1.0, 0.0005, 0.75]
# different signatures, all alike, and alike in turn
VALUES = [[0, 1, 2, 3, 4, 5, 6], [7] * 7, [0, 1, 0, 1, 0, 1, 1]]
BOUND = [None, 0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0]
BOUNDS = {
    "quick": "all ordered lists of up to 4 of 5 signatures (two at one time) x 3 kinds x 3 patterns of equal values x 9 bounds, up to 3 of 7 (with one near zero), stored at construction, added or assigned; all pieces of three tracks of up to two of 4 notes; all arrangements of 4 almost simultaneous notes in three tracks",
    "thorough": "all ordered lists of up to 5 of 5 signatures (two at one time) x 3 kinds x 3 patterns of equal values x 9 bounds, up to 3 of 7 (with one near zero), stored at construction, added or assigned; all pieces of three tracks of up to two of 4 notes; all arrangements of 4 almost simultaneous notes in three tracks",
}
ASSUMPTIONS = ["at most one tempo at time zero"]


def setup():
    global Piece, TS, TP, KS
    from neural_graph_composer.midi.midi_sequences import MidiNoteSequences as Piece
    from neural_graph_composer.midi.midi_time_signature import MidiTimeSignature as TS, MidiTempoSignature as TP
    from neural_graph_composer.midi.midi_key_signature import MidiKeySignature as KS


def cases(tier):
    for n in range((5 if tier == "thorough" else 4) + 1):
        for p in itertools.permutations(range(5), n):
            yield ["sig", list(p)]
    for n in range(1, 4):
        for p in itertools.permutations(range(7), n):
            if max(p) > 4:
                yield ["sig", list(p)]
    for w in itertools.permutations(range(4)):
        yield ["close", list(w)]
    L = [[]] + [[i] for i in range(4)] + [[0, 1], [3, 0], [1, 2], [2, 1]]
    for a in L:
        for b in L:
            yield ["events", a, b]


def run_case(case, rec):
    if case[0] == "close":
        # starts closer together than a millisecond, in three tracks
        N = [(60, t, 3.0, 80) for t in (0.5, 0.5004, 0.49996, 0.5001)]
        N = [N[i] for i in case[1]]
        for i, j in itertools.combinations_with_replacement(range(5), 2):
            tr = [tm.track(x, num=5 - k, instrument=5 - k) for k, x in enumerate((N[:i], N[i:j], N[j:]))]
            p = Piece(midi_seq=list(tr))
            ev = [n.start_time for n in p.get_all_sequence_events()]
            rec.step()
            rec.eq(ev, sorted(x[1] for x in N), "events-close", f"{case} {i} {j}")
        rec.state(tuple(case[1]))
        return
    if case[0] == "events":
        for c in ([], [1], [3, 2]):
            tr = [tm.track([tm.POOL[i] for i in x], drum=j == 1, num=5 - j, instrument=5 - j) for j, x in enumerate((case[1], case[2], c))]
            p = Piece(midi_seq=list(tr))
            before = [tm.atts(t) for t in tr]
            ev = [nm.att(n) for n in p.get_all_sequence_events()]
            rec.step()
            rec.eq(sorted(ev), sorted(sum(before, [])), "events", f"{case} {c}")
            rec.check(all(x[4] <= y[4] for x, y in zip(ev, ev[1:])), "events-order", lambda: f"{case} {c}: {ev}")
            rec.eq([tm.atts(t) for t in tr], before, "events-change", f"{case} {c}")
            rec.state((case[1], case[2], c))
            rec.outcome(tuple(x[0] for x in ev))
        return
    idx = case[1]
    for kind, added, val in itertools.product(range(3), (False, True, "set"), VALUES):
            mk = [lambda i: TS(TIMES[i], numerator=2 + val[i]), lambda i: KS(TIMES[i], midi_key=val[i]), lambda i: TP(TIMES[i], qpm=60.0 + val[i])]
            sigs = [mk[kind](i) for i in idx]
            kw = dict(time_signatures=[], key_signatures=[], tempo_signatures=[])
            name = list(kw)[kind]
            if added is True:
                p = Piece(**kw)
                f = (p.add_time_signatures, p.add_key_signatures, p.add_tempo_signature)[kind]
                for s in sigs:
                    f(s)
                keep = []              # an addition at the time of the first entry replaces it
                for i in idx:
                    if keep and TIMES[keep[0]] == TIMES[i]:
                        keep[0] = i
                    else:
                        keep.append(i)
                        keep.sort(key=lambda x: TIMES[x])
            else:
                kw[name] = list(sigs)
                p = Piece(**(dict(kw, **{name: []}) if added else kw))
                if added:              # whatever order the list is in
                    setattr(p, name, list(sigs))
                keep = list(idx)
            stored = list(getattr(p, name))
            sl = (p.slice_time_signatures, p.slice_key_signatures, p.slice_tempo_signature)[kind]
            for b in BOUND:
                for srt in (True, False):
                    rec.step()
                    got = list(sl(b, srt))
                    want = [i for i in keep if (b is None or TIMES[i] <= b) and not (kind == 2 and TIMES[i] == 0.0)]
                    ctx = f"{name} {val} {[TIMES[i] for i in idx]} added={added} bound {b} sorted={srt}"
                    rec.eq(sorted(s.midi_time for s in got), sorted(TIMES[i] for i in want), "listed", ctx)
                    ids = {id(s) for s in got}
                    rec.check(len(ids) == len(got) and ids <= {id(s) for s in stored}, "once", ctx)
                    if srt:
                        rec.check(all(x.midi_time <= y.midi_time for x, y in zip(got, got[1:])), "order", lambda: f"{ctx}: {got}")
                    rec.check([id(s) for s in getattr(p, name)] == [id(s) for s in stored], "listing-changes", ctx)
            rec.eq([id(s) for s in sl()], [id(s) for s in sl(None, True)], "default-args")
            rec.state((kind, added, val, idx))
            rec.outcome(tuple(s.midi_time for s in got))
