"""C32: all short histories of writes with every combination of arguments, and writers that interleave."""
import contextlib
import io
import itertools
import os
import shutil
from .. import tmodel as tm
from ..core import raises

PROP, LEVEL = "C32", "fault_enumeration"
TECHNIQUE = "explicit-state model checking: exhaustive enumeration of write histories, argument combinations, fault points and interleavings with a second writer"
BOUNDS = {
    "quick": "every combination of 12 pieces, 11 paths, 20 ranges and 5 overwrite arguments from 2 file-system states; all histories of 2..3 writes over 30 argument combinations; a file created by another process at every call the write makes into the file system or the conversion",
    "thorough": "as quick with histories of up to 4 writes over 30 argument combinations",
}
ASSUMPTIONS = ["a write that was permitted and is then interrupted by the operating system is not covered"]
PIECES = ["good", "other", "names", "one", "empty", "none", "track", "str", "program", "value", "key", "chord"]
GOOD = {"good", "other", "names", "one", "chord"}
PATHS = ["new.mid", "old.mid", "dir", "missing/new.mid", "", None, 7, "link.mid", "sub/x.mid", "sub/old.mid", "old.mid/x"]
RANGES = [(None, None), (0, None), (None, 1.0), (0.0, 1.0), (-1, None), (None, -0.5), (2, 1), ("a", None), (None, "b"), (None, [1]),
          (-0.5, None), (-1e-9, 1.0), (None, -1e-9), (1.0, 0.999), (1.0, 0), (0.5, 0.25), (None, ""), ("", None), ("", 1.0), ([], None)]
BAD_RANGE = set(range(4, 20))
OVER = [False, True, None, 0, 1]
#       piece path range overwrite
COMBO = [(p, q, r, o) for p in (0, 1, 8) for q in (0, 1) for r in (0, 4) for o in (0, 1)] + \
        [(0, 7, 0, 0), (1, 7, 0, 1), (0, 3, 0, 1), (4, 1, 0, 1), (9, 1, 0, 1), (2, 1, 0, 1)]


def setup():
    global MidiReader, Piece, KS, CC, mr
    import warnings
    import logging
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    from neural_graph_composer import midi_reader as mr
    from neural_graph_composer.midi_reader import MidiReader
    from neural_graph_composer.midi.midi_sequences import MidiNoteSequences as Piece
    from neural_graph_composer.midi.midi_key_signature import MidiKeySignature as KS
    from neural_graph_composer.midi.midi_control_change import MidiControlChange as CC


def cases(tier):
    for p in range(len(PIECES)):
        for q in range(len(PATHS)):
            yield ["single", p, q]
    n = len(COMBO)
    for a in range(n):
        for b in range(n):
            yield ["hist", a, b, 4 if tier == "thorough" else 3]
    for w in range(4):
        for o in range(len(OVER)):
            yield ["race", w, o]


def make(kind):
    if kind == "none":
        return None
    if kind == "str":
        return "piece"
    if kind == "track":
        return tm.track([(60, 0.0, 1.0, 80)])
    p = Piece()
    if kind == "empty":
        return p
    k = p.create_track(0, 5, "Ναί" if kind == "names" else "Some", False)
    notes = {"one": [(60, 0.0, 1.0, 80)], "chord": [(60, 0.0, 1.0, 80), (64, 0.0, 1.0, 80)], "other": [(62, 0.0, 1.0, 80), (62, 1.0, 3.0, 80), (61, 3.0, 4.0, 1)]}
    for s in notes.get(kind, [(60, 0.0, 1.0, 80), (64, 0.5, 2.0, 80), (67, 1.5, 2.5, 80)]):
        p[k].add_note(tm.note(s, False, 5))
    if kind == "program":
        p[k].instrument.instrument_num = 200
    elif kind == "value":
        p[k].add_control_changes(CC(7, 200, cc_time=0.5, program=5, instrument=0))
    elif kind == "key":
        p.add_key_signatures(KS(1.0, midi_key=77, midi_mode=0))
    return p


def snap():
    out = {}
    for d, ds, fs in os.walk("w"):
        for x in ds:
            out[os.path.join(d, x)] = "dir"
        for x in fs:
            f = os.path.join(d, x)
            out[f] = ("link", os.readlink(f)) if os.path.islink(f) else open(f, "rb").read()
    return out


def fresh(state):
    if os.path.isdir("w"):
        shutil.rmtree("w")
    os.makedirs("w/dir")
    os.makedirs("w/sub")
    open("w/old.mid", "wb").write(b"precious" if state == 0 else b"p" * 100000)
    open("w/sub/old.mid", "wb").write(b"")
    os.symlink("old.mid", "w/link.mid")


def call(p, path, rng, over):
    path = os.path.join(os.path.abspath("w"), path) if isinstance(path, str) and path else path
    with contextlib.redirect_stdout(io.StringIO()):
        return raises(MidiReader.write, p, path, from_start=rng[0], to_end=rng[1], do_overwrite=over)


CONTENT = {}


def content(kind, ri):
    """what a permitted write of this piece puts into a new file"""
    if (kind, ri) not in CONTENT:
        os.makedirs("c", exist_ok=True)
        f = os.path.abspath("c/x.mid")
        if os.path.exists(f):
            os.unlink(f)
        with contextlib.redirect_stdout(io.StringIO()):
            e, _ = raises(MidiReader.write, make(kind), f, from_start=RANGES[ri][0], to_end=RANGES[ri][1])
        CONTENT[kind, ri] = None if e else open(f, "rb").read()
    return CONTENT[kind, ri]


def expect(before, kind, path, ri, over):
    """None if the write has to be refused, else the file system after it"""
    if kind not in GOOD or ri in BAD_RANGE or not isinstance(path, str) or not path:
        return None
    f = "w/" + path
    if f in before and not over:
        return None
    if before.get(f) == "dir" or (os.path.dirname(f) != "w" and before.get(os.path.dirname(f)) != "dir"):
        return None
    t = "w/old.mid" if path == "link.mid" else f
    c = content(kind, ri)
    if c is None:
        return None
    after = dict(before)
    after[t] = c
    return after


def step(kind, path, ri, over, rec, ctx):
    before = snap()
    w = expect(before, kind, path, ri, over)
    e, _ = call(make(kind), path, RANGES[ri], over)
    rec.step()
    after = snap()
    tell = lambda s: {k: (v if v == "dir" else len(v)) for k, v in s.items()}
    if w is None:
        rec.check(e is not None, "not-refused", lambda: f"{ctx}: write({kind}, {path!r}, {RANGES[ri]}, overwrite={over}) was not refused")
        rec.check(after == before, "refused-but-changed", lambda: f"{ctx}: write({kind}, {path!r}, {RANGES[ri]}, overwrite={over}) raised {e!r} and left {tell(after)}, before {tell(before)}")
    else:
        rec.check(e is None, "refused", lambda: f"{ctx}: write({kind}, {path!r}, {RANGES[ri]}, overwrite={over}): {e!r}")
        rec.check(after == w, "content", lambda: f"{ctx}: write({kind}, {path!r}, {RANGES[ri]}, overwrite={over}) left {tell(after)}, expected {tell(w)}")
    rec.state((sorted(after.items(), key=lambda x: x[0]), type(e).__name__))


def run_case(case, rec):
    if case[0] == "single":
        kind, path = PIECES[case[1]], PATHS[case[2]]
        for kk in ("good", "one", "chord", "names"):
            rec.check(content(kk, 0), "cannot-write", lambda: f"a new file from {kk}")
        for ri in range(len(RANGES)):
            for over in OVER:
                for state in (0, 1):
                    fresh(state)
                    step(kind, path, ri, over, rec, str(case))
    elif case[0] == "hist":
        _, a, b, depth = case
        tails = [[a, b]] + [[a, b, c] for c in range(len(COMBO))]
        if depth == 4:
            tails += [[a, b, c, d] for c in range(len(COMBO)) for d in range(len(COMBO))]
        for word in tails:
            fresh(0)
            for i, w in enumerate(word):
                p, q, r, o = COMBO[w]
                step(PIECES[p], PATHS[q], r, OVER[o], rec, f"{word} step {i}")
    else:
        # another process creates the file while this one writes
        _, where, oi = case
        over = OVER[oi]
        fresh(0)
        target = os.path.abspath("w/new.mid")

        def intrude():
            with open(target, "wb") as f:
                f.write(b"someone else's")
        point = [(mr.os.path, "exists"), (MidiReader, "to_pretty_midi"), (mr.CustomPrettyMIDI, "write"), (mr.CustomPrettyMIDI, "time_to_tick")][where]
        orig = getattr(*point)
        raw = point[0].__dict__.get(point[1]) if isinstance(point[0], type) else orig
        done = []

        def wrapped(*a, **k):
            r = orig(*a, **k)
            if not done:
                done.append(1)
                intrude()
            return r
        setattr(point[0], point[1], staticmethod(wrapped) if isinstance(raw, staticmethod) else wrapped)
        try:
            e, _ = call(make("good"), "new.mid", (None, None), over)
        finally:
            if raw is not None:
                setattr(point[0], point[1], raw)
            else:
                delattr(point[0], point[1])
        rec.step()
        if not done:
            return
        if not over:
            rec.check(open(target, "rb").read() == b"someone else's" and e is not None, "race",
                      lambda: f"a file created by another process after {point[1]} was overwritten without permission ({e!r})")
        else:
            rec.check(e is None and open(target, "rb").read() == content("good", 0), "race", lambda: f"after {point[1]}: {e!r}")
        rec.state(("race", where, oi))
