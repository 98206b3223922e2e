"""C09: every way to hand music to a graph builder gives the same graphs; what is not music is refused.

Every small piece is built directly, through every constructor, and - written as a
file - through every reading entry point; then every history of builds on one builder
with a piece of its own is compared with the direct builds.
"""
import itertools
import os
import contextlib
import io
import pathlib
from . import c07
from .. import gutil as gu, tmodel as tm
from ..core import raises

PROP, LEVEL = "C09", "model_checking"
BOUNDS = {
    "quick": "all pieces of 1..2 tracks over 11 track contents through every constructor, in 6 build configurations; all pieces of 1..2 over 9 contents written and read through 5 entry points, as .mid and .midi, as text path and path object; all histories of up to 3 builds over 5 (own piece, two others, drained or not) on builders of 4 kinds; 18 things that are not music",
    "thorough": "pieces of up to 3 tracks, histories of up to 4 builds",
}
ASSUMPTIONS = ["graphs are built with the same options (what is given to a constructor is not an option of a build)"]
CONF = [{}, {"is_per_instrument": False}, {"feature_vec_size": 2}, {"filter_single_notes": True}, {"is_include_velocity": True},
        {"is_per_instrument": False, "is_include_velocity": True, "feature_vec_size": 5}]
FILES = [i for i, t in enumerate(c07.TR) if t[0] not in ("silent", "drumnotes")]


def setup():
    global B, Piece, Track, Reader
    gu.load()
    from neural_graph_composer.midi_reader import MidiReader as Reader
    B, Piece, Track = gu.MidiGraphBuilder, gu.MidiNoteSequences, gu.MidiNoteSequence


def cases(tier):
    th = tier == "thorough"
    k = 3 if th else 2
    for n in range(1, k + 1):
        for w in itertools.product(range(len(c07.TR)), repeat=n):
            yield ["ways", list(w)]
    for n in range(1, k + 1):
        for w in itertools.product(FILES, repeat=n):
            yield ["file", list(w)]
    for kind in range(4):
        for n in range(1, (4 if th else 3) + 1):
            for w in itertools.product(range(5), repeat=n):
                yield ["history", kind, list(w)]
    for i in range(18):
        yield ["bad", i]


# options of building one instrument that make no sense
ONE_BAD = [("seq", [None, 5, "x", [], {}, b"x"]), ("feature_vec_size", [0, -1, 129, 2.0, "12", [4]]), ("velocity_num_buckets", [0, -2, 8.0, "8"]),
           ("node_attr_type", [None, 1, "Tensor", "tensor"]), ("filter_single_notes", [None, 0, 1, "no"]), ("tolerance", [-0.1, 1.5, "0.1", None, float("inf")]),
           ("is_include_velocity", [0, 1, "yes"])]


def graph(g):
    return [(n, {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in d.items()}) for n, d in g.nodes(data=True)], list(g.edges(data=True))


def data(d):
    return [(k, v.tolist() if hasattr(v, "tolist") else v) for k, v in sorted(d.to_dict().items())]


def content(b):
    return ([graph(g) for g in b.sub_graphs], [data(d) for d in b.pyg_data], b.hash_to_notes, b.notes_to_hash, b.hash_to_index, b.index_to_hash)


def direct(piece, kw):
    b = B()
    b.build(piece, **kw)
    return content(b)


def run_case(case, rec):
    with contextlib.redirect_stdout(io.StringIO()):
        {"ways": run_ways, "file": run_file, "history": run_history, "bad": run_bad}[case[0]](case, rec)


def run_ways(case, rec):
    w = case[1]
    for kw in CONF:
        want = direct(c07.pieces(w), kw)
        ways = {"constructor": lambda: B(c07.pieces(w)), "sequences": lambda: B.from_midi_sequences(c07.pieces(w)),
                "settings": lambda: B(c07.pieces(w), tolerance=0.2, is_include_velocity=False)}
        if len(w) == 1:
            # a track has the number of its instrument
            ways["track"] = lambda: B(c07.pieces(w)[0])
            if c07.TR[w[0]][2]:
                ways["sequence"] = lambda: B.from_midi_sequence(c07.pieces(w)[0])
        for name, make in ways.items():
            b = make()
            rec.check(content(b) == ([], [], {}, {}, {}, {}), "fresh", lambda: f"{name}: {content(b)}")
            b.build(**kw)
            rec.step()
            rec.check(content(b) == want, "ways", lambda: f"{name} of {w} with {kw}: {content(b)}, directly {want}")
        rec.state((tuple(w), repr(kw)))
        rec.outcome(repr(want))


def run_file(case, rec):
    w = case[1]
    tracks = [gu.seq([x for x in c07.TR[t][2]], k * 8, c07.TR[t][1]) for k, t in enumerate(w)]
    for ext in ("mid", "midi"):
        path = os.path.join(os.getcwd(), f"f.{ext}")
        Reader.write(Piece(midi_seq=tracks), path, do_overwrite=True)
        for kw in CONF:
            want = direct(Reader.read(path), kw)

            def named(p):
                rec.check(p.filename == path, "filename", lambda: f"{p.filename!r} of {path}")
                return p
            ways = {"builder": lambda: B.from_file(path), "path": lambda: B.from_file(path, feature_size=7),
                    "reader": lambda: B(named(Reader.from_file(path))), "piece": lambda: B(named(Piece.from_file(path, Reader()))),
                    "class": lambda: B.from_midi_sequences(named(Piece.from_file(path, Reader)))}
            for name, make in ways.items():
                e, b = raises(make)
                rec.check(e is None, "file", lambda: f"{name} of {w}: {e!r}")
                b.build(**kw)
                rec.step()
                rec.check(content(b) == want, "file", lambda: f"{name} of {w} with {kw}: {content(b)}, directly {want}")
            rec.outcome(repr(want))
        a, b = Reader.read(path), Piece.from_file(path, Reader())
        for p in (a, b):
            p.seen = ([(k, tm.atts(p[k]), p[k].instrument.instrument_num) for k in p], p.resolution, p.total_time,
                      [(s.midi_time, s.numerator, s.denominator) for s in p.time_signatures],
                      [(s.midi_time, s.midi_key, s.mode) for s in p.key_signatures], [(s.midi_time, s.qpm) for s in p.tempo_signatures])
        rec.check(a.seen == b.seen, "piece", lambda: f"{w}: {b.seen}, read {a.seen}")
        rec.state((tuple(w), ext))


def run_history(case, rec):
    _, kind, w = case
    own, others = [0, 2], [[1], [3, 0]]
    make = [lambda: B(c07.pieces(own)), lambda: B.from_midi_sequences(c07.pieces(own)), lambda: B(c07.pieces([2])[0]), lambda: B()][kind]
    mine = [own, own, [2], None][kind]
    b = make()
    ref = B()
    for n, op in enumerate(w):
        if op in (0, 3):
            e, _ = raises(b.build, is_per_instrument=op == 0)
            rec.step()
            if mine is None:
                rec.check(isinstance(e, ValueError), "nothing", lambda: f"{w[:n + 1]}: {e!r}")
            else:
                rec.check(e is None, "own", lambda: f"{w[:n + 1]}: {e!r}")
                ref.build(c07.pieces(mine), is_per_instrument=op == 0)
        elif op in (1, 2):
            b.build(c07.pieces(others[op - 1]))
            ref.build(c07.pieces(others[op - 1]))
            rec.step()
        else:
            x, y = raises(lambda: [data(d) for d in b.graphs()]), raises(lambda: [data(d) for d in ref.graphs()])
            rec.step()
            rec.check(type(x[0]) is type(y[0]) and x[1] == y[1], "drain", lambda: f"{w[:n + 1]}: {x}, expected {y}")
        rec.check(content(b) == content(ref), "history", lambda: f"kind {kind} {w[:n + 1]}: {content(b)}, expected {content(ref)}")
        rec.state(repr(content(b)))
    rec.outcome(repr(content(b)))


def run_bad(case, rec):
    i = case[1]
    here = os.getcwd()
    piece = lambda: c07.pieces([0])
    os.makedirs("dir.mid", exist_ok=True)
    for f in ("x.txt", "noext", "x.mid.bak"):
        Reader.write(piece(), os.path.join(here, "ok.mid"), do_overwrite=True)
        pathlib.Path(f).write_bytes(pathlib.Path("ok.mid").read_bytes())
    pathlib.Path("garbage.mid").write_bytes(b"nothing of the kind")
    pathlib.Path("empty.mid").write_bytes(b"")
    j = lambda p: os.path.join(here, p)
    bad = [
        (lambda: B(5), (TypeError,)), (lambda: B("x.mid"), (TypeError,)), (lambda: B([piece()]), (TypeError,)), (lambda: B(c07.pieces([0])[0].notes[0]), (TypeError,)),
        (lambda: B.from_midi_sequences(piece()[0]), (TypeError,)), (lambda: B.from_midi_sequences(None), (TypeError,)),
        (lambda: B.from_midi_sequence(piece()), (ValueError, TypeError)), (lambda: B.from_midi_sequence(c07.pieces([8])[0]), (ValueError,)),
        (lambda: B.from_file(j("missing.mid")), (ValueError,)), (lambda: B.from_file(j("x.txt")), (ValueError,)), (lambda: B.from_file(j("noext")), (ValueError,)),
        (lambda: B.from_file(j("dir.mid")), (ValueError,)), (lambda: B.from_file(j("x.mid.bak")), (ValueError,)),
        (lambda: Reader.from_file(j("garbage.mid")), (ValueError,)), (lambda: Reader.from_file(j("missing.mid")), (ValueError,)), (lambda: Reader.from_file(j("empty.mid")), (ValueError,)),
        (lambda: Piece.from_file(j("garbage.mid"), Reader()), (ValueError,)), (lambda: Piece.from_file(j("missing.mid"), Reader()), (ValueError,)),
    ]
    f, kinds = bad[i]
    e, x = raises(f)
    rec.step()
    rec.check(isinstance(e, kinds), "bad", lambda: f"number {i}: {e!r} {x!r}")
    rec.state(i)
    # the settings
    for s in (0, -1, 128, 1000, 2.5, "12"):
        e, x = raises(B, piece(), feature_size=s)
        rec.check(isinstance(e, (ValueError, TypeError)), "size", lambda: f"feature size {s!r}: {e!r}")
    for t in (-1, -0.01, "0.2", None):
        e, x = raises(B, piece(), tolerance=t)
        rec.check(isinstance(e, (ValueError, TypeError)), "tolerance", lambda: f"tolerance {t!r}: {e!r}")
    for k, vs in (("feature_vec_size", (2.0, "12", None)), ("velocity_num_buckets", (8.0, "8", None)), ("default_trim_time", (1.5, "3", None))):
        for v in vs:
            b = B()
            e, x = raises(b.build, piece(), **{k: v})
            rec.step()
            rec.check(isinstance(e, (ValueError, TypeError)) and content(b) == ([], [], {}, {}, {}, {}), "option", lambda: f"{k}={v!r}: {e!r} {content(b)}")
    for v in (0, -3, 129):
        b = B()
        e, x = raises(b.build, piece(), feature_vec_size=v)
        rec.check(isinstance(e, ValueError) and content(b) == ([], [], {}, {}, {}, {}), "option", lambda: f"feature_vec_size={v!r}: {e!r} {content(b)}")
    # one instrument, into a graph of its own or one given
    for given in (False, True):
        for k, vs in ONE_BAD:
            for v in vs:
                b = B()
                g = b.build_sequence(c07.pieces([1])[0]) if given else None
                was = (graph(g) if given else None), content(b)
                kw = {"seq": piece()[0], "g": g, k: v}
                e, x = raises(b.build_sequence, **kw)
                rec.step()
                rec.check(isinstance(e, (ValueError, TypeError)), "sequence-option", lambda: f"{k}={v!r}: {e!r}")
                rec.check(((graph(g) if given else None), content(b)) == was, "sequence-effect", lambda: f"{k}={v!r}: {content(b)} was {was}")
    rec.outcome(repr(type(e)))
