"""C52: labels over small corpora, and all histories of label maps."""
import copy
import itertools
import os
import shutil
from .. import dutil as du
from ..core import raises
from .c51 import POOL, NAMES, CONF, expected

PROP, LEVEL = "C52", "model_checking"
TECHNIQUE = "explicit-state model checking: exhaustive enumeration of small corpora and of all add/merge histories of label maps in lock step with a model"
BOUNDS = {
    "quick": "all corpora of 1..2 files over 8 files in both layouts, and of 3 files over 4; all states of 2 label maps over 3 hashes and 1 over 4 reachable by adds and merges (histories of any length), and all histories of up to 5 operations",
    "thorough": "all corpora of 1..3 files over 8 files in both layouts with 12 configurations for those of 1..2; all reachable states of 3 label maps over 3 hashes and 2 over 4, and all histories of up to 5 operations over 2 maps",
}
ASSUMPTIONS = ["distinct chords of a corpus have distinct hashes"]


def setup():
    du.load()


def cases(tier):
    th = tier == "thorough"
    for m, h in ((2, 3), (1, 4)) if not th else ((2, 3), (1, 4), (2, 4), (3, 3)):
        yield ["closure", m, h]
    for maps, hashes, depth in ((2, 3, 5),) if not th else ((2, 3, 5), (3, 4, 4)):
        k = len(ops(maps, hashes))
        for first in range(k):
            for second in range(k):
                yield ["map", maps, hashes, depth, first, second]
    for n in (1, 2, 3):
        for c in itertools.product(NAMES if (n < 3 or th) else ["two", "drums", "nothing", "twin"], repeat=n):
            if all(x in ("drums", "nothing") for x in c):
                continue
            for k in range(len(CONF) if th and n < 3 else 1):
                yield ["corpus", list(c), k]


def ops(maps, hashes):
    return [("add", m, h) for m in range(maps) for h in range(hashes)] + [("merge", a, b) for a in range(maps) for b in range(maps)]


HASH = [77, -5, 0, 1 << 60]


def compare(real, model, rec, word):
    for j in range(len(real)):
        r, m = real[j], model[j]
        rec.eq(dict(r.hash_to_index), {h: k for k, h in enumerate(m)}, "hash-to-index", f"{word} map {j}")
        rec.eq(dict(r.index_to_hash), dict(enumerate(m)), "index-to-hash", f"{word} map {j}")
        for k, h in enumerate(m):
            rec.eq((r.get_index(h), r.get_node_hash(k)), (k, h), "lookup", f"{word} map {j}")
        for h in HASH:
            if h not in m:
                rec.check(raises(r.get_index, h)[0] is not None, "unknown-hash", lambda: f"{word}: {h}")
        rec.check(raises(r.get_node_hash, len(m))[0] is not None, "unknown-index", lambda: f"{word}")


def closure(maps, hashes, rec):
    """every state reachable by histories of any length"""
    table = ops(maps, hashes)
    key = lambda real: repr([sorted(vars(r).items(), key=str) for r in real])
    start = [du.NodeHashIndexMapper() for _ in range(maps)]
    seen = {key(start)}
    todo = [(start, [[] for _ in range(maps)], [])]
    while todo:
        real, model, path = todo.pop()
        for op, a, b in table:
            r, m = copy.deepcopy(real), [list(x) for x in model]
            apply(r, m, op, a, b)
            rec.step()
            compare(r, m, rec, path + [(op, a, b)])
            k = key(r)
            if k not in seen:
                seen.add(k)
                rec.state(m)
                todo.append((r, m, path + [(op, a, b)]))
    rec.count("closures")


def apply(real, model, op, a, b):
    if op == "add":
        real[a].add_node_hash(HASH[b])
        if HASH[b] not in model[a]:
            model[a].append(HASH[b])
    else:
        real[a].merge_with(real[b])
        model[a] += [h for h in list(model[b]) if h not in model[a]]


def run_case(case, rec):
    if case[0] == "closure":
        return closure(case[1], case[2], rec)
    if case[0] == "map":
        _, maps, hashes, depth, first, second = case
        table = ops(maps, hashes)

        def go(word):
            real = [du.NodeHashIndexMapper() for _ in range(maps)]
            model = [[] for _ in range(maps)]
            for i in word:
                apply(real, model, *table[i])
                rec.step()
            compare(real, model, rec, [table[i] for i in word])
            rec.state(model)
        for n in range(0, depth - 1):
            for tail in itertools.product(range(len(table)), repeat=n):
                go([first, second] + list(tail))
        if second == 0:
            go([first])
        return
    _, c, k = case
    if not all(any(expected(c, CONF[k], per)) for per in (True, False)):
        return                             # nothing that sounds
    for order in ((True, False), (False, True)):
        for d in ("src", "root"):
            if os.path.isdir(d):
                shutil.rmtree(d)
        fs = [os.path.abspath(du.put(f"src/{n}.mid", du.midi(POOL[n]))) for n in c]
        both = {}
        for per in order:
            ds = du.dataset(fs, "root", per, **CONF[k])
            h2n, n2h, h2i, i2h = ds.hash_to_notes, ds.notes_to_hash, ds.hash_to_index, ds.index_to_hash
            rec.check({v: k2 for k2, v in h2n.items()} == n2h and {v: k2 for k2, v in h2i.items()} == i2h and set(h2n) == set(h2i), "tables",
                      lambda: f"{case} per_instrument={per}: {h2n} {n2h} {h2i} {i2h}")
            label = {}
            for g in range(len(ds)):
                d = ds[g]
                y = d.y.tolist()
                rows = d.x.tolist()
                rec.eq(len(y), len(rows), "label-count", f"{case} graph {g}")
                for v, row in zip(y, rows):
                    pitches = row[0] if isinstance(row[0], list) else row
                    size = CONF[k].get("feature_vec_size", 12)
                    pitches = pitches[:size]
                    rec.check(v in i2h, "label-unknown", lambda: f"{case}: label {v} of graph {g}")
                    chord = frozenset(h2n[i2h[v]])
                    rec.eq(sorted(chord), sorted(int(p) for p in pitches if p), "label-decodes", f"{case} graph {g}")
                    rec.check(label.setdefault(v, chord) == chord, "label-shared", lambda: f"{case}: {v}")
                    rec.check(v < ds.num_classes, "classes-bound", lambda: f"{case}: label {v}, {ds.num_classes} classes")
                    rec.step()
            rec.eq(len(set(label.values())), len(label), "chord-two-labels", f"{case} per_instrument={per}")
            rec.check(len(label) <= ds.total_num_classes <= len(i2h), "total-classes", lambda: f"{case}: {ds.total_num_classes}")
            both[per] = label
            rec.state((per, sorted((v, sorted(x)) for v, x in label.items())))
        for v in set(both[True]) & set(both[False]):
            rec.eq(both[True][v], both[False][v], "layouts-differ", f"{case}: label {v}")
        rec.outcome(sorted((v, sorted(x)) for v, x in both[True].items()))
