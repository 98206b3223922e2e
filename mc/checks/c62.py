"""C62: splitting a dataset and thinning a graph under every outcome of the random draws."""
import itertools
from .. import xutil as xu
from . import c53

PROP, LEVEL = "C62", "model_checking"
TECHNIQUE = "explicit-state model checking: exhaustive enumeration of small datasets and graphs and of all outcomes of the random draws under a controlled generator"
BOUNDS = {
    "quick": "datasets of 1..4 graphs under every shuffle and every split at 9 ratios, of up to 60 graphs at fixed draws; all directed "
             "graphs on 1..3 nodes (530), five shapes of attributes, six ratios, every selection",
    "thorough": "datasets of up to 5 graphs; also all directed graphs on 4 nodes with at most 5 of the 16 edges",
}
ASSUMPTIONS = ["draws come from torch.randperm, numpy.random.choice, permutation or shuffle, whose outcomes are enumerated"]
RATIOS = [0.0, 0.2, 0.25, 1 / 3, 0.5, 0.75, 0.8, 0.9, 1.0]


def setup():
    global torch, np
    xu.load()
    c53.setup()
    torch, np = xu.torch, xu.np


def cases(tier):
    th = tier == "thorough"
    for n in range(1, 6 if th else 5):
        for r in RATIOS:
            yield ["split", n, r]
    for r in RATIOS:
        yield ["sizes", 60, r]
    for n in (1, 2, 3):
        for bits in range(1 << n * n):
            yield ["thin", n, bits]
    if th:
        for k in range(6):
            for c in itertools.combinations(range(16), k):
                yield ["thin", 4, sum(1 << i for i in c)]


class Draws:
    """the random functions return what a script of choices dictates"""

    def __init__(self, script):
        self.script, self.at, self.sizes = script, 0, []

    def choose(self, k):
        self.sizes.append(k)
        c = self.script[self.at] if self.at < len(self.script) else 0
        self.at += 1
        return c

    def order(self, n, k=None):
        left, out = list(range(n)), []
        while left and (k is None or len(out) < k):
            out.append(left.pop(self.choose(len(left))) if len(left) > 1 else left.pop())
        return out

    def choice(self, a, size=None, replace=True, p=None):
        assert not replace and p is None, "drawn with replacement"
        v = np.arange(a) if isinstance(a, (int, np.integer)) else np.array(a)
        n = int(np.prod(size)) if size is not None else 1
        return v[np.array(self.order(len(v), n), dtype=np.int64)]

    def __enter__(self):
        import torch.utils.data.dataset as tud
        self.at_ = [(torch, "randperm"), (tud, "randperm"), (np.random, "choice"), (np.random, "permutation"), (np.random, "shuffle")]
        self.old = [getattr(m, n) for m, n in self.at_]

        def shuffle(x):
            y = [x[i] for i in self.order(len(x))]
            for i, v in enumerate(y):
                x[i] = v
        perm = lambda n, *a, **k: torch.tensor(self.order(int(n)), dtype=torch.long)
        torch.randperm = tud.randperm = perm
        np.random.choice, np.random.shuffle = self.choice, shuffle
        np.random.permutation = lambda x: self.choice(x, x if isinstance(x, (int, np.integer)) else len(x), False)
        return self

    def __exit__(self, *a):
        for (m, n), v in zip(self.at_, self.old):
            setattr(m, n, v)


def outcomes(fn, limit=None):
    todo = [[]]
    n = 0
    while todo and (limit is None or n < limit):
        script = todo.pop()
        n += 1
        with Draws(script) as d:
            r = fn()
        yield script, r, d
        for i in range(len(script), len(d.sizes)):
            for c in range(1, d.sizes[i]):
                todo.append(script + [0] * (i - len(script)) + [c])


def run_case(case, rec):
    if case[0] in ("split", "sizes"):
        _, n, ratio = case
        for m in ([n] if case[0] == "split" else range(1, n + 1)):
            ds = xu.Corpus([f"g{i}" for i in range(m)])
            e = xu.fresh()
            e.train_ration = ratio
            seen = set()

            def go():
                e.split(ds)
                return [e.train_dataset[i] for i in range(len(e.train_dataset))], [e.test_dataset[i] for i in range(len(e.test_dataset))]
            draws = 0
            for script, (tr, te), d in outcomes(go, None if case[0] == "split" else 3):
                ctx = f"{m} graphs at {ratio}, draws {script}"
                rec.step()
                rec.check(sorted(tr + te) == sorted(ds.items), "not-a-partition", lambda: f"{ctx}: {tr} and {te}")
                rec.check(abs(len(tr) - ratio * m) < 1, "ratio", lambda: f"{ctx}: {len(tr)} to train")
                rec.eq(ds.items, [f"g{i}" for i in range(m)], "dataset-changed", ctx)
                seen.add(tuple(sorted(tr)))
                draws += d.at
                rec.state((m, ratio, tuple(tr), tuple(te)))
            if case[0] == "split" and draws:
                rec.eq(seen, set(itertools.combinations(sorted(ds.items), len(tr))), "reachable", str(case))
            rec.outcome((m, ratio, len(seen)))
        return
    _, n, bits = case
    for shape in c53.SHAPES:
        for p in c53.P:
            seen, draws = set(), 0
            for script, (g, pairs, wt, r), d in outcomes(lambda: thin(n, bits, shape, p)):
                ctx = f"{case} {shape} removing {p} draws {script}"
                rec.step()
                row = {str(x): i for i, x in enumerate(g.x.tolist())}
                kept = [row.get(str(x)) for x in r.x.tolist()]
                rec.check(None not in kept and len(set(kept)) == len(kept), "features", lambda: f"{ctx}: {r.x.tolist()}")
                rec.eq(len(kept), n - int(p * n), "kept-count", ctx)
                rec.eq(int(r.num_nodes), len(kept), "num-nodes", ctx)
                rec.eq(r.y.tolist(), [50 + i for i in kept], "labels", ctx)
                got = list(zip(*r.edge_index.tolist()))
                rec.check(all(0 <= v < len(kept) for e in got for v in e), "edge-range", lambda: f"{ctx}: {got} among {len(kept)} nodes")
                got = [(kept[u], kept[v]) for u, v in got]
                want = [e for e in pairs if e[0] in kept and e[1] in kept]
                rec.eq(sorted(got), sorted(want), "edges", ctx)
                if g.edge_attr is None:
                    rec.check(r.edge_attr is None, "edge-attr", ctx)
                else:
                    rec.eq(len(r.edge_attr), len(got), "edge-attr-count", ctx)
                    rec.eq(dict(zip(got, c53.weights(r))), {e: wt[e] for e in want}, "edge-weights", ctx)
                for k in ("train_mask", "val_mask", "test_mask", "node_hash", "label"):
                    if g.get(k) is not None:
                        a, b = (v.tolist() if hasattr(v, "tolist") else list(v) for v in (r[k], g[k]))
                        rec.eq(a, [b[i] for i in kept], k, ctx)
                seen.add(tuple(sorted(kept)))
                draws += d.at
                rec.state((n, bits, shape, p, tuple(kept)))
            if draws:
                rec.eq(seen, set(itertools.combinations(range(n), n - int(p * n))), "reachable", f"{case} {shape} {p}")
            rec.outcome(len(seen))


def thin(n, bits, shape, p):
    g, pairs = c53.build(n, bits, shape)
    wt = dict(zip(pairs, c53.weights(g)))
    keep = c53.build(n, bits, shape)[0]
    return keep, pairs, wt, xu.shared.Experiments.remove_nodes_and_edges(g, p)
