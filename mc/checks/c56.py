"""C56: what a dataset reports under all short words of accesses, and which settings it refuses.

Every word of accesses (by index, from the end, by slice, in a loop, statistics, tables
that the caller then empties) is run on small datasets, per instrument and whole pieces,
and after each access everything handed out is compared with the graphs built directly.
Every single setting that makes no sense, and every pair of ratios on a grid, is given
to the constructor, which has to refuse it and leave the disk as it was.
"""
import contextlib
import io
import itertools
import os
import pathlib
import shutil
from . import c51
from .. import dutil as du
from ..core import raises

PROP, LEVEL = "C56", "model_checking"
BOUNDS = {
    "quick": "all words of up to 3 of 12 accesses on datasets of 4 corpora in both layouts, with and without labels; 51 settings that make no sense, and all pairs of 11 ratios, in both layouts",
    "thorough": "words of up to 4 accesses; all pairs of 31 ratios",
}
ASSUMPTIONS = ["the building of a file's graphs is checked by C01, C02 and C07", "what a dataset hands out is not changed in place, apart from the tables"]
CORPORA = [["two"], ["one", "two"], ["drums", "single"], ["mixed", "twin", "big"]]
BAD = [
    ("root", 5), ("root", None), ("root", b"root"), ("transform", 5), ("transform", "f"), ("pre_transform", 5), ("pre_transform", [abs]), ("pre_filter", 5),
    ("pre_filter", "even"), ("default_node_attr", 5), ("default_node_attr", None), ("midi_files", "x.mid"), ("midi_files", ("x.mid",)), ("midi_files", [1]),
    ("midi_files", ["FILE", None]), ("midi_files", {"x.mid": 1}), ("default_webserver", None), ("default_webserver", 5), ("train_ratio", "a"), ("train_ratio", None),
    ("train_ratio", [0.5]), ("train_ratio", -0.1), ("train_ratio", 1.1), ("train_ratio", float("nan")), ("train_ratio", float("inf")), ("val_ratio", "a"),
    ("val_ratio", None), ("val_ratio", -0.1), ("val_ratio", 1.1), ("val_ratio", 0.4), ("val_ratio", float("nan")), ("train_ratio", 0.9), ("per_instrument_graph", 1),
    ("per_instrument_graph", None), ("per_instrument_graph", "yes"), ("per_graph_slit", 1), ("per_graph_slit", None), ("default_midi_loc", 5),
    ("default_midi_loc", "missing"), ("default_midi_loc", "plain"), ("feature_vec_size", 0), ("feature_vec_size", -1), ("feature_vec_size", 129),
    ("feature_vec_size", 1.5), ("feature_vec_size", "12"), ("velocity_num_buckets", 0), ("velocity_num_buckets", -4), ("velocity_num_buckets", 2.5),
    ("tolerance", "0.2"), ("filter_single_notes", 1), ("include_velocity", "no"),
]


def setup():
    c51.setup()


def cases(tier):
    th = tier == "thorough"
    for per in (True, False):
        for i in range(len(BAD)):
            yield ["bad", i, per]
        n = 30 if th else 10
        for a in range(n + 1):
            yield ["ratios", a / n, [b / n for b in range(n + 1)], per]
    for c in range(len(CORPORA)):
        for per in (True, False):
            for labels in (True, False):
                for first in range(12):
                    yield ["words", c, per, labels, first, 4 if th else 3]


def disk():
    return sorted((d, tuple(sorted(ds)), tuple(sorted((f, os.path.getsize(os.path.join(d, f))) for f in fs))) for d, ds, fs in os.walk(".") if "direct" not in d)


def run_case(case, rec):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        if case[0] == "words":
            return run_words(case, rec)
        fs = c51.files_for(["two"], "abs")
        pathlib.Path("plain").write_text("x")
        if case[0] == "bad":
            name, value = BAD[case[1]]
            kw = dict(root="root", midi_files=list(fs), per_instrument_graph=case[2], default_midi_loc="loc")
            kw[name] = [fs[0], None] if value == ["FILE", None] else value
            before = disk()
            e, ds = raises(lambda: du.MidiDataset(**kw))
            rec.step()
            rec.check(isinstance(e, (TypeError, ValueError)), "bad", lambda: f"{name}={value!r}: {e!r}")
            rec.check(disk() == before, "bad-disk", lambda: f"{name}={value!r} left {disk()}")
            rec.state((name, repr(value), case[2]))
            return rec.outcome(type(e).__name__)
        _, a, bs, per = case
        for b in bs:
            shutil.rmtree("root", ignore_errors=True)
            before = disk()
            e, ds = raises(lambda: du.dataset(list(fs), "root", per, train_ratio=a, val_ratio=b))
            rec.step()
            if a + b > 1 + 1e-9:
                rec.check(isinstance(e, ValueError) and disk() == before, "ratios", lambda: f"ratios {a} {b}: {e!r}")
            else:
                rec.check(e is None and len(ds) == (2 if per else 1), "ratios", lambda: f"ratios {a} {b}: {e!r}")
            rec.state((a, b, per))
            rec.outcome(e is None)


def seen(ds):
    t = ds.hash_to_notes
    return [du.graph(g, t) for g in ds], ds.notes_to_hash, t, ds.hash_to_index, ds.index_to_hash, ds.total_num_classes, len(ds), ds.num_features, ds.num_classes


def empty(ds):
    for t in (ds.hash_to_notes, ds.notes_to_hash, ds.hash_to_index, ds.index_to_hash):
        t.clear()


def run_words(case, rec):
    _, c, per, labels, first, depth = case
    corpus = CORPORA[c]
    fs = c51.files_for(corpus, "abs")
    want = [g for f in c51.expected(corpus, {}, per) for g in f]
    n = len(want)
    stats = {"num_nodes": sum(len(g[0]) for g in want), "num_edges": sum(len(g[2]) for g in want), "num_labels": sum(len(set(g[0])) for g in want)}
    make = lambda: du.dataset(list(fs), "root", per, remove_label=not labels)
    T = du.torch
    from torch_geometric.data import Data
    chord = lambda ds, g: du.graph(g, ds.hash_to_notes)
    OPS = [
        ("first", lambda ds: chord(ds, ds[0]), want[0]), ("last", lambda ds: chord(ds, ds[-1]), want[-1]), ("middle", lambda ds: chord(ds, ds[n // 2]), want[n // 2]),
        ("slice", lambda ds: [chord(ds, g) for g in ds[1:]], want[1:]), ("pick", lambda ds: [chord(ds, g) for g in ds[T.tensor([n - 1, 0])]], [want[-1], want[0]]),
        ("statistics", lambda ds: ds.compute_statistics(), stats), ("weights", lambda ds: [bool(du.MidiDataset.has_edge_weights(g)) for g in [Data(), Data(x=T.zeros(2)), Data(edge_attr=None)] + list(ds)], [False] * 3 + [True] * n),
        ("empty", empty, None), ("classes", lambda ds: (ds.total_num_classes == len(ds.index_to_hash), ds.num_features), (True, 12)),
        ("beyond", lambda ds: [isinstance(raises(lambda: ds[i])[0], IndexError) for i in (n, n + 1, 2 * n, 999, -n - 1, -n - 2, -2 * n - 1, -999)], [True] * 8),
        ("both ends", lambda ds: [chord(ds, ds[i]) for i in range(-n, n)], want + want), ("len", len, n),
    ]
    ds = make()
    rec.check(seen(ds)[0] == want, "content", lambda: f"{corpus}: {seen(ds)[0]}, built directly {want}")
    before = seen(ds)
    if first == 0:
        again = make()
        rec.check(seen(again) == before, "again", lambda: f"{corpus}: loaded {seen(again)}, made {before}")
    for k in range(depth):
        for w in itertools.product(OPS, repeat=k):
            x = make() if k == 1 else ds
            for name, f, ans in (OPS[first],) + w:
                e, got = raises(f, x)
                rec.step()
                rec.check(e is None, name, lambda: f"{corpus} {per}: {name} after {[o[0] for o in w]}: {e!r}")
                rec.check(got == ans, name, lambda: f"{corpus} {per} {[OPS[first][0]] + [o[0] for o in w]}: {name} gives {got}, expected {ans}")
            if k < 2:
                rec.check(seen(x) == before, "changed", lambda: f"{corpus} {per} after {[OPS[first][0]] + [o[0] for o in w]}: {seen(x)}, before {before}")
    rec.check(seen(ds) == before, "changed", lambda: f"{corpus} {per} after all words from {OPS[first][0]}: {seen(ds)}, before {before}")
    rec.state((tuple(corpus), per, labels, first))
    rec.outcome(repr(before))
