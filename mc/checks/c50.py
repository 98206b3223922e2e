"""C50: every outcome of the shuffles that make the masks, driven through the real dataset."""
import itertools
import os
import shutil
from .. import dutil as du

PROP, LEVEL = "C50", "model_checking"
TECHNIQUE = "explicit-state model checking: exhaustive enumeration of the outcomes of every random shuffle under a controlled generator"
BOUNDS = {
    "quick": "graphs of 1..5 nodes, every permutation of the nodes, 29 pairs of ratios, both layouts; graph sizes 1..30 at three fixed permutations",
    "thorough": "graphs of 1..6 nodes, every permutation of the nodes, every pair of ratios over a grid of 0.05 (231), both layouts; sizes 1..60 at three fixed permutations",
}
ASSUMPTIONS = ["the shuffle is drawn from numpy or torch (permutation, shuffle, randperm); the enumerated permutation is what these return"]
QR = [(0.7, 0.15), (0, 0), (1, 0), (0, 1), (1.0, 0.0), (0.0, 1.0), (0.5, 0.5), (0.8, 0.1), (0.6, 0.2), (0.9, 0.1), (0.1, 0.9), (0.29, 0.71),
      (1 / 3, 1 / 3), (1 / 3, 2 / 3), (0.2, 0.2), (0.2, 0.6), (0.25, 0.25), (0.75, 0.25), (0.4, 0.4), (0.05, 0.05), (0.95, 0.05), (0.01, 0.99),
      (0.34, 0.33), (0.58, 0.4), (0.57, 0.43), (0.3, 0.3), (0.99, 0.005), (0.6, 0.4), (0.15, 0.7)]


def setup():
    du.load()


def ratios(tier):
    if tier != "thorough":
        return QR
    return [(i / 20, j / 20) for i in range(21) for j in range(21 - i) if i / 20 + j / 20 <= 1]


def cases(tier):
    for n in range(1, (6 if tier == "thorough" else 5) + 1):
        for r in ratios(tier):
            for per in (True, False):
                yield ["all", n, list(r), per]
    for r in QR:
        for per in (True, False):
            yield ["sizes", 60 if tier == "thorough" else 30, list(r), per]
    yield ["off", 3, [0.7, 0.15], True]
    yield ["off", 3, [0.7, 0.15], False]


def melody(ch, n, base=30):
    # the last chord closes the walk, so that a graph of one node has two notes
    return (ch, ch, [((base + i,), 60) for i in range(n)] + [((base,), 60)])


class Shuffles:
    """np.random.permutation, np.random.shuffle, torch.randperm and the generator object return what is dictated"""

    def __init__(self, perms):
        self.perms, self.used = perms, 0

    def draw(self, n):
        p = self.perms(self.used, n)
        self.used += 1
        assert sorted(p) == list(range(n))
        return list(p)

    def __enter__(self):
        np, torch = du.np, du.torch
        self.old = (np.random.permutation, np.random.shuffle, torch.randperm)

        def permutation(x, *a, **k):
            if isinstance(x, (int, np.integer)):
                return np.array(self.draw(int(x)), dtype=np.int64)
            a = np.array(x)
            return a[np.array(self.draw(len(a)), dtype=np.int64)]

        def shuffle(x, *a, **k):
            y = [x[i] for i in self.draw(len(x))]
            for i, v in enumerate(y):
                x[i] = v
        np.random.permutation, np.random.shuffle = permutation, shuffle
        torch.randperm = lambda n, *a, **k: torch.tensor(self.draw(int(n)), dtype=torch.long)
        return self

    def __exit__(self, *a):
        du.np.random.permutation, du.np.random.shuffle, du.torch.randperm = self.old


def verify(g, n, r, rec, ctx):
    m = []
    for key in ("train_mask", "val_mask", "test_mask"):
        t = g.get(key)
        rec.check(t is not None, "mask-missing", lambda: f"{ctx}: {key}")
        rec.check(tuple(t.shape) == (n,), "mask-length", lambda: f"{ctx}: {key} has {tuple(t.shape)} entries for {n} nodes")
        v = t.tolist()
        rec.check(all(x in (0, 1) for x in v), "mask-values", lambda: f"{ctx}: {key} {v}")
        m.append([bool(x) for x in v])
    rec.check(all(sum(c) == 1 for c in zip(*m)), "not-a-partition", lambda: f"{ctx}: {m}")
    want = (r[0] * n, r[1] * n, n - (r[0] + r[1]) * n)
    for name, x, w, slack in zip(("train", "val", "test"), m, want, (1, 1, 2)):
        rec.check(abs(sum(x) - w) < slack + 1e-9 and not (slack == 1 and abs(sum(x) - w) > 1 - 1e-9), "ratio",
                  lambda: f"{ctx}: {sum(x)} of {n} nodes in {name}, ratio asks for {w:.3f}")
    rec.state((n, tuple(map(tuple, m))))
    rec.step()
    return m


def run_case(case, rec):
    kind, n, r, per = case
    for d in ("root", "loc"):
        if os.path.isdir(d):
            shutil.rmtree(d)

    if kind == "all":
        perms = list(itertools.permutations(range(n)))
        sizes = [n] * len(perms)
        pick = lambda i, k: perms[i % len(perms)]
    elif kind == "sizes":
        sizes = [s for s in range(1, n + 1) for _ in range(3)]

        def pick(i, k):
            # identity, reversal, and an interleaving
            return [range(k), range(k - 1, -1, -1), sorted(range(k), key=lambda v: (v % 3, v))][i % 3]
    else:
        sizes = [n]
        pick = lambda i, k: range(k)
    # one graph after another, each with the masks of its own shuffle
    files = []
    for s in dict.fromkeys(sizes):
        du.put(f"f{s}.mid", du.midi([melody(0, s)]))
    files = [os.path.abspath(f"f{s}.mid") for s in sizes]
    with Shuffles(lambda i, k: pick(i, k)) as sh:
        ds = du.dataset(files, "root", per, train_ratio=r[0], val_ratio=r[1], do_split_mask=kind != "off")
    rec.eq(len(ds), len(sizes), "graphs", f"{case}")
    for i, s in enumerate(sizes):
        g = ds[i]
        rec.eq(g.x.shape[0], s, "nodes", f"{case} graph {i}")
        if kind == "off":
            rec.check(all(g.get(k) is None for k in ("train_mask", "val_mask", "test_mask")), "mask-unasked", "masks without being asked for")
        else:
            m = verify(g, s, r, rec, f"{case} graph {i}")
            rec.outcome((s, tuple(map(tuple, m))))
    rec.count("shuffles", sh.used)
