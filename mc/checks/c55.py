"""C55: every sequence of differently configured datasets sharing a folder, through the real dataset."""
import itertools
import os
import shutil
from .. import dutil as du

PROP, LEVEL = "C55", "model_checking"
TECHNIQUE = ("explicit-state exploration of the real dataset: every ordered pair (and bounded triples) of configurations "
             "processed in one folder, each compared with graphs built directly from the files")
BOUNDS = {
    "quick": "all ordered pairs of 24 configurations (velocity x feature size x tolerance x single-note filter) in both "
             "layouts, all triples of 6, all ordered pairs of 8 nearby ratios on a graph of 260 nodes, all ordered pairs of 8 ways to split and label times the single-note filter and velocities, "
             "on a corpus on which they differ",
    "thorough": "all ordered pairs of 54 configurations in both layouts, all triples of 12, the pairs of ways to split as in quick",
}
ASSUMPTIONS = ["the datasets are made from the same files, without transforms",
               "the building of a file's graphs is checked by C01, C02 and C07"]
H = lambda *ps: (tuple(ps), 60)
FILES = {"a": [(0, 0, [H(60), H(64, 67), H(60), H(50, 52, 54, 57, 59)])],
         "b": [(1, 5, [H(40, 44), H(41), H(40, 43)]), (2, 9, [H(70), H(71), H(72, 75)])]}


def setup():
    du.load()


def confs(tier):
    if tier == "thorough":
        dims = itertools.product((False, True), (2, 4, 12), (0.05, 0.2, 0.9), (False, True), (None,))
        out = [d[:4] for d in dims]
        return out + [(v, n, t, f) for v in (False, True) for n in (3, 128) for t in (0.25, 0.7) for f in (False, True)] + \
            [(False, 12, 0.21, False), (True, 1, 0.2, False)]
    return list(itertools.product((False, True), (4, 12), (0.05, 0.2, 0.9), (False, True)))


def cases(tier):
    C = confs(tier)
    for a in C:
        for b in C:
            for per in (True, False):
                yield ["pair", list(a), list(b), per]
    for a, b in itertools.product(SPLITS, repeat=2):
        for f, v in itertools.product((False, True), repeat=2):
            yield ["split", list(a), list(b), f, v]
    for a, b in itertools.product(NEAR, repeat=2):
        yield ["near", list(a), list(b)]
    m = 12 if tier == "thorough" else 6
    few = [C[k * (len(C) // m)] for k in range(m)]
    for w in itertools.product(few, repeat=3):
        yield ["seq"] + [list(c) for c in w + w[:1]]


# do_split_mask, train_ratio, val_ratio, remove_label
SPLITS = [(True, 0.7, 0.15, True), (False, 0.7, 0.15, True), (True, 0.5, 0.15, True), (True, 0.7, 0.0, True),
          (True, 0.15, 0.7, True), (True, 0.7, 0.15, False), (False, 0.7, 0.15, False), (True, 0.0, 0.0, True)]
# ratios that differ by a little; a graph of 260 nodes tells them apart
NEAR = [(True, t, v, True) for t, v in ((0.7, 0.15), (0.704, 0.15), (0.7, 0.154), (0.696, 0.15), (0.5, 0.15), (0.504, 0.15), (0.5, 0.154), (0.5, 0.4))]
CORPUS = {}


def split(rec, fs, s, f, v, per, ctx):
    ds = du.dataset(list(fs), "root", per, include_velocity=v, filter_single_notes=f, do_split_mask=s[0], train_ratio=s[1], val_ratio=s[2], remove_label=s[3])
    rec.step()
    for i in range(len(ds)):
        g = ds[i]
        n = g.x.shape[0]
        masks = [g.get(k) for k in ("train_mask", "val_mask", "test_mask")]
        if not s[0]:
            rec.check(masks == [None] * 3, "masks-unasked", lambda: f"{ctx}: {masks}")
        else:
            rec.check(all(m is not None for m in masks), "masks-missing", ctx)
            k = [int(m.sum()) for m in masks]
            rec.check(sum(k) == n and abs(k[0] - s[1] * n) < 1 and abs(k[1] - s[2] * n) < 1, "other-split", lambda: f"{ctx}: {k} of {n} for {s}")
        if per:      # the option concerns the per-instrument layout
            rec.eq(g.get("label") is not None, not s[3], "label", ctx)
    if len(fs) > 1:
        rec.eq(len(ds), len(reference((v, 12, 0.2, f), per)), "graphs", ctx)
    rec.state((s, f, v, per))
    rec.outcome(repr((s, f, v, per)))


def options(c):
    return dict(include_velocity=c[0], feature_vec_size=c[1], tolerance=c[2], filter_single_notes=c[3])


def reference(c, per):
    if (c, per) not in CORPUS:
        out = []
        for n in FILES:
            out += du.direct(du.put(f"direct/{n}.mid", du.midi(FILES[n])), per, **options(c))
        CORPUS[c, per] = out
    return CORPUS[c, per]


def fresh():
    for d in ("src", "root", "loc"):
        if os.path.isdir(d):
            shutil.rmtree(d)
    return [os.path.abspath(du.put(f"src/{n}.mid", du.midi(t))) for n, t in FILES.items()]


def agree(rec, fs, c, per, ctx):
    want = reference(c, per)
    ds = du.dataset(list(fs), "root", per, **options(c))
    t = ds.hash_to_notes
    got = [du.graph(ds[i], t) for i in range(len(ds))]
    rec.step()
    rec.check(got == want, "other-configuration", lambda: f"{ctx}: asked for {c} per_instrument={per}, got {got}, built directly {want}")
    rec.eq(ds[0].x.shape[-1], c[1] if isinstance(c[1], int) else ds[0].x.shape[-1], "feature-width", ctx)
    for i in range(len(ds)):
        ch = [tuple(sorted(t[ds.index_to_hash[y]])) for y in ds[i].y.tolist()]
        rec.eq(tuple(ch), want[i][0], "labels", ctx)
    rec.state((c, per))
    rec.outcome(repr(want))


def run_case(case, rec):
    fs = fresh()
    if case[0] == "near":
        a, b = tuple(case[1]), tuple(case[2])
        f = [os.path.abspath(du.put("src/long.mid", du.midi([(0, 0, [H(20 + i % 13, 40 + i // 13) for i in range(260)])])))]
        for per in (True, False):
            for s, ctx in ((a, f"first {a}"), (b, f"{b} after {a}"), (a, f"{a} again after {b}")):
                split(rec, f, s, False, False, per, ctx)
        return
    if case[0] == "pair":
        a, b, per = tuple(case[1]), tuple(case[2]), case[3]
        agree(rec, fs, a, per, f"first {a}")
        agree(rec, fs, b, per, f"{b} after {a}")
        agree(rec, fs, b, not per, f"{b} in the other layout after {a}")
        agree(rec, fs, a, per, f"{a} again after {b}")
    elif case[0] == "split":
        a, b, f, v = tuple(case[1]), tuple(case[2]), case[3], case[4]
        for s, g, per, ctx in ((a, f, True, f"first {a}"), (b, f, True, f"{b} after {a}"), (b, not f, True, f"{b} and {not f} after {a}"),
                               (b, f, False, f"whole-piece {b} after {a}"), (a, f, True, f"{a} again after {b}")):
            split(rec, fs, s, g, v, per, ctx)
    else:
        for i, c in enumerate(case[1:]):
            agree(rec, fs, tuple(c), i % 2 == 0, f"step {i} of {case[1:]}")
