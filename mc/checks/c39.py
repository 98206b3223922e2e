"""C39: file objects written out and read again, for all small files and objects built by hand."""
import contextlib
import io
import itertools
import math
import os
from bisect import bisect_left
from .. import smf
from ..core import raises

PROP, LEVEL = "C39", "model_checking"
BOUNDS = {
    "quick": "files with every word of up to 3 of 12 track events (at equal or increasing ticks), and every word of up to 3 of 10 signature, tempo and lyric events, in 6 writing and 5 reading forms, three rounds each; every tempo of 11 windows of 2000 microsecond values x 3 resolutions; objects built by hand: 1..20 instruments, every drum channel, every program, every key, times on and off the ticks, 8 tempos x 3 resolutions, four events of each kind in any order",
    "thorough": "words of up to 4 events; every tempo from 400000 to 800000 microseconds",
}
ASSUMPTIONS = ["instruments have at least one note, and no two notes of one key of an instrument overlap unless they start and end together",
               "every note lasts at least a tick", "names and texts are latin1", "the order of events of one kind within a tick is not compared"]
TRACK = [["on", 0, 60, 90], ["off", 0, 60], ["on", 0, 64, 1], ["on", 0, 64, 0], ["on", 9, 35, 127], ["off", 9, 35], ["prog", 0, 5],
         ["cc", 0, 7, 100], ["cc", 0, 64, 0], ["bend", 0, -8192], ["bend", 0, 8191], ["name", "Lead"]]
META = [["tempo", 599999], ["tempo", 60005], ["tempo", 500000], ["ts", 3, 4], ["ts", 6, 8], ["ks", -3, 1], ["ks", 7, 0],
        ["lyric", "la"], ["lyric", "\xe9t\xe9"], ["text", "x"]]
LAST = [[0, ["on", 0, 61, 77]], [2, ["off", 0, 61]]]
WINDOWS = [1, 9000, 59000, 99000, 249000, 332000, 499000, 599000, 999000, 5999000, 16775216 - 1]


def setup():
    global PM, mido, pretty_midi
    import warnings
    import logging
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import mido
    import pretty_midi
    from neural_graph_composer.custom_pretty_midi import CustomPrettyMIDI as PM


def cases(tier):
    th = tier == "thorough"
    for n in range(1, (4 if th else 3) + 1):
        for w in itertools.product(range(24), repeat=n - 1):
            yield ["track", list(w)]
        for w in itertools.product(range(20), repeat=n - 1):
            yield ["meta", list(w)]
    for k, lo in enumerate(WINDOWS + list(range(400000, 800000, 2000)) if th else WINDOWS):
        for res in (96, 220, 480) if k < len(WINDOWS) else ((96, 220, 480)[k % 3],):
            yield ["tempo", lo, res]
    for n in range(1, 21):
        yield ["many", n]
    for d in range(16):
        yield ["drums", d]
    for p in range(128):
        yield ["program", p]
    for t in range(8):
        for res in (96, 220, 480):
            yield ["hand", t, res]
    yield ["keys"]
    for w in itertools.permutations(range(4)):
        for shift in (0, 3):
            yield ["order", list(w), shift]
    yield ["again"]
    yield ["huge"]


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return raises(fn, *a, **k)


def exact(pm):
    """everything a file object holds, as it is"""
    return (pm.resolution, [(int(t), float(s)) for t, s in pm._tick_scales],
            [(float(x.time), x.numerator, x.denominator) for x in pm.time_signature_changes],
            [(float(x.time), x.key_number) for x in pm.key_signature_changes],
            [(float(x.time), x.text) for x in pm.lyrics],
            [(int(i.program), bool(i.is_drum), i.name, [(float(n.start), float(n.end), int(n.pitch), int(n.velocity)) for n in i.notes],
              [(float(c.time), c.number, c.value) for c in i.control_changes], [(float(b.time), b.pitch) for b in i.pitch_bends])
             for i in pm.instruments])


class Grid:
    """nearest ticks by the tempo map, computed from the map alone"""
    def __init__(self, tmap, res, top):
        self.s = [smf.seconds(t, tmap, res) for t in range(top + 1)] if top < 5000 else None

    def __call__(self, x):
        s = self.s
        i = bisect_left(s, x)
        if i and (i == len(s) or x - s[i - 1] <= s[i] - x):
            i -= 1
        return i


def in_ticks(e, g):
    return (e[0], sorted((g(t),) + r for t, *r in e[2] for r in [tuple(r)]), sorted((g(t), k) for t, k in e[3]), sorted((g(t), x) for t, x in e[4]),
            [(p, d, nm, sorted((g(a), g(b), k, v) for a, b, k, v in ns), sorted((g(t), n, v) for t, n, v in cc), sorted((g(t), v) for t, v in bd))
             for p, d, nm, ns, cc, bd in e[5]])


def apart(e):
    """no two notes of a key overlap, except those that start and end together"""
    for i in e[4]:
        by = {}
        for a, b, k, v in i[3]:
            by.setdefault(k, []).append((a, b))
        for l in by.values():
            l = sorted(set(l))
            if any(x[1] > y[0] for x, y in zip(l, l[1:])) or any(a == b for a, b in l):
                return False
    return True


def messages(mf):
    return (mf.ticks_per_beat, mf.type, [[(m.type, dict(vars(m))) for m in t] for t in mf.tracks])


def tempos(mf):
    """[(tick, microseconds)] of a parsed file, changes only"""
    tick, out = 0, {0: 500000}
    for m in mf.tracks[0]:
        tick += m.time
        if m.type == "set_tempo":
            out[tick] = m.tempo
    return [(t, out[t]) for i, t in enumerate(sorted(out)) if not i or out[t] != out[sorted(out)[i - 1]]]


def forms(pm, rec, ctx):
    """the bytes written, the same in every form"""
    before = exact(pm)
    e, mf = quiet(pm.serialize)
    rec.check(e is None and isinstance(mf, mido.MidiFile), "serialize", lambda: f"{ctx()}: {e!r}")
    buf = io.BytesIO()
    mf.save(file=buf)
    data = buf.getvalue()
    rec.check(all(m.time >= 0 for t in mf.tracks for m in t), "negative-delta", lambda: f"{ctx()}: {list(map(list, mf.tracks))}")
    fresh = mido.MidiFile()
    e, r = quiet(pm.serialize, fresh)
    rec.check(e is None and r is fresh, "serialize-given", lambda: f"{ctx()}: {e!r}")
    buf = io.BytesIO()
    fresh.save(file=buf)
    rec.check(buf.getvalue() == data, "serialize-given-differs", lambda: f"{ctx()}: {list(map(list, fresh.tracks))}")
    given = mido.MidiFile()
    own = [mido.Message("note_on", note=60, velocity=5, time=3), mido.Message("note_off", note=60, time=2), mido.MetaMessage("end_of_track", time=1)]
    given.tracks.append(mido.MidiTrack(own))
    was = repr(own)
    e, r = quiet(pm.serialize, given)
    rec.check(e is None and repr(list(given.tracks[0])) == was, "given-track-changed", lambda: f"{ctx()}: {e!r} {list(given.tracks[0])} was {was}")
    rec.check(messages(given)[2][1:] == messages(fresh)[2], "given-tracks-differ", lambda: f"{ctx()}: {list(map(list, given.tracks[1:]))}")
    e, _ = quiet(pm.write, "a.mid")
    rec.check(e is None and open("a.mid", "rb").read() == data, "path-differs", lambda: f"{ctx()}: {e!r}, not the serialized file")
    buf = io.BytesIO()
    e, _ = quiet(pm.write, buf)
    rec.check(e is None and buf.getvalue() == data, "file-differs", lambda: f"{ctx()}: {e!r}, not the serialized file")
    rec.check(exact(pm) == before, "object-changed", lambda: f"{ctx()}: {exact(pm)} was {before}")
    rec.step(6)
    return data


def load(data, rec, ctx, **k):
    """the object read, the same from every form"""
    e, pm = quiet(PM, io.BytesIO(data), **k)
    rec.check(e is None, "read", lambda: f"{ctx()}: {e!r}")
    got = exact(pm)
    with open("b.mid", "wb") as f:
        f.write(data)
    mf = mido.MidiFile(file=io.BytesIO(data))
    was = messages(mf)
    for name, src in (("path", "b.mid"), ("parsed", mf), ("parsed again", mf)):
        e, q = quiet(PM, src, **k)
        rec.check(e is None and exact(q) == got, "forms-differ", lambda: f"{ctx()}: from {name} {e!r} {e is None and exact(q)}, from bytes {got}")
        rec.check(messages(mf) == was, "parsed-changed", lambda: f"{ctx()}: reading changed the parsed file to {messages(mf)}")
    # an object that held something else before
    e, q = quiet(PM, None, 96, 77.0, **k)
    q.instruments.append(pretty_midi.Instrument(3))
    q.lyrics.append(pretty_midi.Lyric("old", 1.0))
    e, _ = quiet(q.from_file, mf)
    rec.check(e is None and exact(q) == got, "reload-differs", lambda: f"{ctx()}: into a used object {exact(q)}, from bytes {got}")
    rec.step(5)
    return pm


def rounds(pm, tmap, res, top, rec, ctx, want=None, **k):
    """write and read three times: what is written is what was there, and stays"""
    g = Grid(tmap, res, top)
    cur = want or in_ticks(exact(pm), g)
    if not want and not apart(cur):
        return False
    if not cur[1] or cur[1][0][0] > 0:
        cur = (cur[0], [(0, 4, 4)] + cur[1]) + cur[2:]
    first = None
    for r in range(3):
        data = forms(pm, rec, lambda: f"{ctx()} round {r}")
        if first is None:
            first = data
            t = tempos(mido.MidiFile(file=io.BytesIO(data)))
            rec.check(t == tmap, "tempo", lambda: f"{ctx()}: wrote tempos {[x for x in t if x not in tmap][:5]} for {[x for x in tmap if x not in t][:5]}")
        rec.check(data == first, "rewriting-changes", lambda: f"{ctx()}: round {r} writes another file: {list(map(list, mido.MidiFile(file=io.BytesIO(data)).tracks))} was {list(map(list, mido.MidiFile(file=io.BytesIO(first)).tracks))}")
        pm = load(data, rec, lambda: f"{ctx()} round {r}", **k)
        got = in_ticks(exact(pm), g)
        for i, part in enumerate(("resolution", "time-signatures", "key-signatures", "lyrics", "instruments")):
            rec.check(got[i] == cur[i], part, lambda: f"{ctx()} round {r}: read {got[i]}, written {cur[i]}")
    rec.state(first)
    rec.outcome(repr(cur[4])[:200])
    return True


def word(w, alpha, a):
    """first event a, then each letter an event, half of them a few ticks later"""
    out, tick = [[0, alpha[a]]], 0
    for x in w:
        tick += 3 * (x // len(alpha))
        out.append([tick, alpha[x % len(alpha)]])
    return out


def hand(res, tempo, insts, drum=9):
    pm = PM(None, res, tempo, drum_channel=drum)
    us = round(6e7 / tempo)
    at = lambda t: t * 60.0 / (tempo * res)
    for prog, is_drum, name, notes, cc, bd in insts:
        i = pretty_midi.Instrument(prog, is_drum, name)
        i.notes += [pretty_midi.Note(v, k, at(a), at(b)) for a, b, k, v in notes]
        i.control_changes += [pretty_midi.ControlChange(n, v, at(t)) for t, n, v in cc]
        i.pitch_bends += [pretty_midi.PitchBend(v, at(t)) for t, v in bd]
        pm.instruments.append(i)
    near = lambda t: math.floor(t + 0.5)
    want = [(p, d, nm, sorted((near(a), near(b), k, v) for a, b, k, v in ns), sorted((near(t), n, v) for t, n, v in cc), sorted((near(t), v) for t, v in bd))
            for p, d, nm, ns, cc, bd in insts]
    return pm, [(0, 500000)] if us == 500000 else [(0, us)], want, at


def run_case(case, rec):
    kind = case[0]
    ctx = lambda: str(case)
    if kind == "track":
        for a in range(12):
            t = word(case[1], TRACK, a)
            end = t[-1][0] + 1
            t = t + [[end + d, e] for d, e in LAST]
            for head in ([], [[0, ["ts", 3, 4]], [0, ["tempo", 60005]], [4, ["tempo", 599999]], [1, ["lyric", "o"]]]):
                head = sorted(head, key=lambda e: e[0])
                tracks = [head, t]
                one(tracks, 96, rec, lambda: f"{ctx()} first {a}: {tracks}")
    elif kind == "meta":
        for a in range(10):
            tracks = [word(case[1], META, a), [[0, ["on", 3, 50, 9]], [4, ["off", 3, 50]]], [[1, ["name", "Kit"]], [1, ["on", 9, 40, 9]], [7, ["cc", 9, 1, 2]], [9, ["off", 9, 40]]]]
            one(tracks, 96, rec, lambda: f"{ctx()} first {a}: {tracks}")
    elif kind == "tempo":
        _, lo, res = case
        head = [[t, ["tempo", lo + t]] for t in range(2000)]
        tracks = [head, [[0, ["on", 0, 60, 9]], [1999, ["off", 0, 60]]]]
        one(tracks, res, rec, ctx)
    elif kind == "many":
        n = case[1]
        insts = [(i, i % 4 == 2, f"T{i}" if i % 3 else "", [(i, i + 5, 60, 80), (i + 5, i + 6, 60, 81)], [(i, 7, i)], [(i + 1, i - 5)]) for i in range(n)]
        pm, tmap, want, _ = hand(480, 120.0, insts)
        rounds(pm, tmap, 480, 400, rec, ctx, (480, [], [], [], want))
    elif kind == "drums":
        for n in range(1, 18):
            insts = [(i, i % 3 == 1, f"T{i}", [(0, 5, 60 + i, 80)], [(2, 64, 127)], []) for i in range(n)]
            pm, tmap, want, _ = hand(96, 100.0, insts, case[1])
            rounds(pm, tmap, 96, 400, rec, lambda: f"{case} {n}", (96, [], [], [], want), drum_channel=case[1])
    elif kind == "program":
        for drum in (False, True):
            pm, tmap, want, _ = hand(96, 100.0, [(case[1], drum, "P", [(0, 4, case[1], 127 - case[1] or 1)], [(0, case[1], 127 - case[1])], [(0, 64 * case[1])])])
            rounds(pm, tmap, 96, 400, rec, lambda: f"{case} {drum}", (96, [], [], [], want))
    elif kind == "hand":
        tempo, res = [120.0, 60.0, 123.456, 99.9, 17.3, 240.1, 333.3333, 1000.0][case[1]], case[2]
        for off in (0.0, 0.3, 0.49, -0.3, -0.49):
            insts = [(5, False, "Lead", [(4 + off, 10 - off, 60, 80), (10 - off, 11 + off, 60, 3), (1 + off, 300 + off, 61, 9)], [(7 + off, 1, 2), (301 + off, 3, 4)], [(2 + off, 77)]),
                     (0, True, "", [(1 + off, 2 + off, 36, 99)], [], [])]
            pm, tmap, want, at = hand(res, tempo, insts)
            pm.time_signature_changes += [pretty_midi.TimeSignature(3, 4, at(8 + off)), pretty_midi.TimeSignature(7, 8, at(290 + off))]
            pm.key_signature_changes += [pretty_midi.KeySignature(14, at(9 + off))]
            pm.lyrics += [pretty_midi.Lyric("so", at(12 + off)), pretty_midi.Lyric("do", at(3 + off))]
            rounds(pm, tmap, res, 400, rec, lambda: f"{case} {off}", (res, [(8, 3, 4), (290, 7, 8)], [(9, 14)], [(3, "do"), (12, "so")], want))
    elif kind == "keys":
        for k in range(24):
            pm, tmap, want, at = hand(96, 120.0, [(5, False, "Lead", [(0, 3, 60, 80)], [], [])])
            pm.key_signature_changes += [pretty_midi.KeySignature(k, at(t)) for t in (0, 5)]
            rounds(pm, tmap, 96, 400, rec, lambda: f"{case} {k}", (96, [], [(0, k), (5, k)], [], want))
    elif kind == "order":
        # lists in no order of time
        _, w, s = case
        pick = lambda l: [l[i] for i in w]
        insts = [(5, False, "Lead", pick([(0 + s, 3 + s, 60, 80), (3 + s, 4 + s, 61, 81), (3 + s, 9, 62, 1), (30, 31, 60, 2)]),
                  pick([(0, 7, 1), (2, 7, 2), (9, 64, 127), (12, 1, 0)]), pick([(0, 5), (4, -5), (8, 0), (90, 1)]))]
        pm, tmap, want, at = hand(96, 120.0, insts)
        ts, ks, ly = [(0, 3, 4), (6, 6, 8), (20, 4, 4), (50, 7, 8)], [(0, 14), (3, 0), (9, 23), (70, 1)], [(0, "a"), (5, "b"), (6, "a"), (40, "c")]
        pm.time_signature_changes += [pretty_midi.TimeSignature(n, d, at(t + s)) for t, n, d in pick(ts)]
        pm.key_signature_changes += [pretty_midi.KeySignature(k, at(t + s)) for t, k in pick(ks)]
        pm.lyrics += [pretty_midi.Lyric(x, at(t + s)) for t, x in pick(ly)]
        move = lambda l: [(e[0] + s,) + e[1:] for e in l]
        rounds(pm, tmap, 96, 400, rec, ctx, (96, move(ts), move(ks), move(ly), want))
    elif kind == "again":
        # one object reads one file after another
        files = [smf.encode([[[0, m]], [[0, ["on", 0, 60, 9]], [5 + i, ["off", 0, 60]]]], 96 + i) for i, m in enumerate(META[:9])]
        for a, b in itertools.product(range(len(files)), repeat=2):
            e, pm = quiet(PM, io.BytesIO(files[a]))
            e, _ = quiet(pm.from_file, io.BytesIO(files[b]))
            e2, q = quiet(PM, io.BytesIO(files[b]))
            rec.step(2)
            rec.check(e is None and e2 is None and exact(pm) == exact(q), "left-over", lambda: f"file {b} after {a}: {exact(pm)}, alone {exact(q)}")
    elif kind == "huge":
        # a corrupt file is refused before any table is made of it
        for last in (200000000, 268435455):
            mf = mido.MidiFile(ticks_per_beat=96)
            mf.tracks.append(mido.MidiTrack([mido.Message("note_on", note=n, velocity=9, time=last) for n in range(6)]))
            e, _ = quiet(PM, mf)
            rec.step()
            rec.check(isinstance(e, ValueError), "huge", lambda: f"{6 * last} ticks: {e!r}")


def one(tracks, res, rec, ctx):
    data = smf.encode(tracks, res)
    pm = load(data, rec, ctx)
    top = max(t[-1][0] for t in tracks if t) + 2
    tmap = smf.tempo_map(tracks, res)
    if not pm.instruments:
        return
    # repetitions within the table may be left out
    rounds(pm, tmap, res, top, rec, ctx)
