"""C53: every small graph through every transform, under every outcome of its random draws."""
import itertools
import os
import shutil
from .. import dutil as du

PROP, LEVEL = "C53", "model_checking"
TECHNIQUE = "explicit-state model checking: exhaustive enumeration of small graphs and of all outcomes of the random draws under a controlled generator"
BOUNDS = {
    "quick": "all directed graphs on 1..3 nodes (530), six shapes of attributes, six probabilities, every permutation and every pattern of low and high draws; graph numbers under all access orders of up to 4 accesses",
    "thorough": "also all directed graphs on 4 nodes with at most 6 of the 16 edges (14893), and access orders of up to 6 accesses",
}
ASSUMPTIONS = ["draws come from torch.randperm, torch.rand, torch.rand_like or torch.bernoulli, whose outcomes are enumerated; a drawn number is either 0 or just below 1",
               "graphs without link-prediction labels"]
P = [0.0, 0.25, 0.34, 0.5, 0.75, 1.0]
SHAPES = ["plain", "noattr", "full", "velocity", "column", "noval"]


def setup():
    global T, Data, torch
    du.load()
    torch = du.torch
    import contextlib
    import io
    from neural_graph_composer import transforms as T
    from torch_geometric.data import Data


def cases(tier):
    th = tier == "thorough"
    for n in (1, 2, 3):
        pairs = list(itertools.product(range(n), repeat=2))
        for bits in range(1 << len(pairs)):
            yield ["graph", n, bits]
    for w in itertools.product(range(3), repeat=2):
        yield ["id", list(w), 6 if th else 4]
    if th:
        for k in range(7):
            for c in itertools.combinations(range(16), k):
                yield ["graph4", 4, sum(1 << i for i in c)]


def build(n, bits, shape):
    pairs = [p for i, p in enumerate(itertools.product(range(n), repeat=2)) if bits >> i & 1]
    ei = torch.tensor(pairs, dtype=torch.long).t().contiguous() if pairs else torch.zeros((2, 0), dtype=torch.long)
    w = torch.tensor([10.0 + i for i in range(len(pairs))])
    x = torch.arange(2.0 * n).reshape(n, 2) + 1
    d = dict(x=x, edge_index=ei, y=torch.arange(n) + 50)
    if shape == "velocity":
        d["x"] = torch.stack([x, x + 100], 1)
    if shape != "noattr":
        d["edge_attr"] = w[:, None] if shape == "column" else w
    if shape in ("full", "column", "noval"):
        d["train_mask"] = torch.tensor([i % 2 == 0 for i in range(n)])
        if shape != "noval":
            d["val_mask"] = torch.tensor([i % 2 == 1 for i in range(n)])
        d["test_mask"] = torch.zeros(n, dtype=torch.bool)
        d["node_hash"] = [1000 + i for i in range(n)]
        d["label"] = [2000 + i for i in range(n)] if shape == "full" else None
    return Data(**d), pairs


class Draws:
    """the random functions of torch return what a script of choices dictates"""

    def __init__(self, script):
        self.script, self.at, self.sizes = script, 0, []

    def choose(self, k):
        """one of k outcomes"""
        self.sizes.append(k)
        if self.at < len(self.script):
            c = self.script[self.at]
        else:
            c = 0
        self.at += 1
        return c

    def __enter__(self):
        self.old = {k: getattr(torch, k) for k in ("randperm", "rand", "rand_like", "bernoulli")}

        def randperm(n, **k):
            left, out = list(range(n)), []
            while left:
                out.append(left.pop(self.choose(len(left))) if len(left) > 1 else left.pop())
            return torch.tensor(out, dtype=torch.long)

        def rand(*size, **k):
            size = size[0] if len(size) == 1 and not isinstance(size[0], int) else size
            t = torch.zeros(tuple(size))
            f = t.view(-1)
            for i in range(f.numel()):
                f[i] = (0.0, 0.9999999)[self.choose(2)]
            return t

        def bernoulli(p, **k):
            return (rand(*p.shape) < p).to(p.dtype)
        torch.randperm, torch.rand, torch.bernoulli = randperm, rand, bernoulli
        torch.rand_like = lambda x, **k: rand(*x.shape)
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(torch, k, v)


def outcomes(fn):
    """fn() under every outcome of its draws"""
    todo = [[]]
    while todo:
        script = todo.pop()
        with Draws(script) as d:
            r = fn()
        yield script, r, d
        for i in range(len(script), len(d.sizes)):
            for c in range(1, d.sizes[i]):
                todo.append(script + [0] * (i - len(script)) + [c])


def plain(d):
    return {k: (v.tolist(), tuple(v.shape)) if hasattr(v, "tolist") else v for k, v in d.to_dict().items() if v is not None}


def weights(d):
    if not d.edge_index.shape[1]:
        return []
    return [None] * d.edge_index.shape[1] if d.edge_attr is None else d.edge_attr.reshape(d.edge_index.shape[1], -1).tolist()


def run_case(case, rec):
    if case[0] == "id":
        return graph_id(case, rec)
    _, n, bits = case
    for shape in SHAPES if n < 4 else SHAPES[2:3]:
        g, pairs = build(n, bits, shape)
        before = plain(g)
        wt = dict(zip(pairs, weights(g)))
        row = {str(r): i for i, r in enumerate(g.x.tolist())}

        def same(ctx):
            rec.check(plain(g) == before, "input-changed", lambda: f"{ctx}: {before} became {plain(g)}")
        # ---- degrees
        ctx = f"{case} {shape}"
        r = T.AddDegreeTransform()(g)
        same(f"{ctx} degree")
        flat = g.x.reshape(n, -1).tolist()
        rec.eq(r.x.tolist(), [f + [float(sum(1 for u, v in pairs if u == i))] for i, f in enumerate(flat)], "degree", ctx)
        rec.check(r.edge_index.tolist() == g.edge_index.tolist() and weights(r) == weights(g) and r.y.tolist() == g.y.tolist(), "degree-rest", lambda: ctx)
        rec.step()
        for p in P if n < 4 else (0.5,):
            # ---- nodes
            t, seen, draws = T.RandomNodeDrop(p), set(), 0
            for script, r, d in outcomes(lambda: t(g)):
                ctx = f"{case} {shape} RandomNodeDrop({p}) draws {script}"
                same(ctx)
                rec.step()
                kept = [row.get(str(x)) for x in r.x.tolist()]
                rec.check(None not in kept and len(set(kept)) == len(kept), "features", lambda: f"{ctx}: {r.x.tolist()}")
                rec.eq(len(kept), n - int(p * n), "kept-count", ctx)
                rec.eq(int(r.num_nodes), len(kept), "num-nodes", ctx)
                rec.eq(r.y.tolist(), [50 + i for i in kept], "labels", ctx)
                got = list(zip(*r.edge_index.tolist()))
                rec.check(all(0 <= v < len(kept) for e in got for v in e), "edge-range", lambda: f"{ctx}: {got}")
                got = [(kept[u], kept[v]) for u, v in got]
                want = [e for e in pairs if e[0] in kept and e[1] in kept]
                rec.eq(sorted(got), sorted(want), "edges", ctx)
                rec.eq(dict(zip(got, weights(r))), {e: wt[e] for e in want}, "edge-weights", ctx)
                rec.check((r.edge_attr is None) == (g.edge_attr is None), "edge-attr", lambda: ctx)
                for k in ("train_mask", "val_mask", "test_mask", "node_hash", "label"):
                    if g.get(k) is not None:
                        v = g[k]
                        rec.eq([x for x in (r[k].tolist() if hasattr(r[k], "tolist") else r[k])], [(v.tolist() if hasattr(v, "tolist") else v)[i] for i in kept], k, ctx)
                    else:
                        rec.check(r.get(k) is None, k, lambda: ctx)
                seen.add(tuple(sorted(kept)))
                draws += d.at
                rec.state((n, bits, shape, p, tuple(kept)))
            if draws:
                rec.eq(seen, set(itertools.combinations(range(n), n - int(p * n))), "reachable", f"{case} {shape} RandomNodeDrop({p})")
            # ---- edges
            t, seen, draws = T.RandomEdgeDrop(p), set(), 0
            for script, r, d in outcomes(lambda: t(g)):
                ctx = f"{case} {shape} RandomEdgeDrop({p}) draws {script}"
                same(ctx)
                rec.step()
                got = list(zip(*r.edge_index.tolist()))
                rec.check(set(got) <= set(pairs) and len(set(got)) == len(got), "edges-kept", lambda: f"{ctx}: {got}")
                rec.eq(dict(zip(got, weights(r))), {e: wt[e] for e in got} if g.edge_attr is not None else {e: None for e in got}, "kept-weights", ctx)
                rec.check((r.edge_attr is None) == (g.edge_attr is None), "edge-attr", lambda: ctx)
                rec.check(p > 0 or len(got) == len(pairs), "dropped-at-zero", lambda: f"{ctx}: {got}")
                rec.check(p < 1 or not got, "kept-at-one", lambda: f"{ctx}: {got}")
                for k in ("x", "y", "train_mask", "val_mask", "test_mask", "node_hash"):
                    a, b = g.get(k), r.get(k)
                    rec.check((a is None) == (b is None) and (a is None or (a.tolist() if hasattr(a, "tolist") else a) == (b.tolist() if hasattr(b, "tolist") else b)), "rest", lambda: f"{ctx}: {k}")
                seen.add(tuple(sorted(got)))
                draws += d.at
                rec.state((n, bits, shape, p, tuple(got)))
            if draws and 0 < p < 1:
                rec.eq(len(seen), 1 << len(pairs), "reachable", f"{case} {shape} RandomEdgeDrop({p})")
            rec.outcome(len(seen))


def graph_id(case, rec):
    _, first, depth = case
    for d in ("src", "root"):
        if os.path.isdir(d):
            shutil.rmtree(d)
    m = lambda b, n: du.midi([(0, 0, [((b + i,), 60) for i in range(n)])])
    fs = [os.path.abspath(du.put(f"src/{i}.mid", m(40 + i, 3 + i))) for i in range(3)]
    ds = du.dataset(fs, "root", True)
    ds.transform = T.GraphIDTransform(ds)
    base = [plain(ds.get(i)) for i in range(3)]
    for n in range(0, depth - 1):
        for tail in itertools.product(range(3), repeat=n):
            for i in first + list(tail):
                g = ds[i]
                rec.step()
                rec.eq(int(g.graph_id), i, "graph-id", f"access {first + list(tail)}")
                d = plain(g)
                d.pop("graph_id")
                rec.check(d == base[i], "graph-id-rest", lambda: f"{d} {base[i]}")
            rec.state(("id", tuple(first), tail))
