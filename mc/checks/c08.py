"""C08: queries and node merging over all small graphs."""
import itertools
from .. import gutil as gu
from ..core import raises

PROP, LEVEL = "C08", "model_checking"
BOUNDS = {
    "quick": "all directed graphs on three chords (2^9 edge sets) and undirected ones, every pair of query chords in every pitch order and form, every ordered subset of nodes to merge, the nodes named after their chords and numbered in three ways",
    "thorough": "as quick, plus all directed graphs on four chords (2^16 edge sets)",
}
ASSUMPTIONS = ["queried chords are nodes of the graph, except for the edge lookup"]
CH = [[60], [60, 64], [67, 64, 60], [0, 127]]
# names of the nodes when merging: those of the chords, and numbers that follow one another
NAMES = [None, [1, 2, 3, 4], [-2, -1, 0, 1], [7, 9, 8, 6]]


def setup():
    gu.load()


def cases(tier):
    for m in range(1 << 9):
        yield ["d", 3, m]
    for m in range(1 << 6):
        yield ["u", 3, m]
    if tier == "thorough":
        for m in range(0, 1 << 16):
            yield ["d", 4, m]


def snapshot(g):
    return ({n: dict(d) for n, d in g.nodes(data=True)}, {(u, v): dict(d) for u, v, d in g.edges(data=True)})


def run_case(case, rec):
    kind, k, mask = case
    B, nx = gu.MidiGraphBuilder, gu.nx
    H = [hash(frozenset(c)) for c in CH[:k]]
    allp = [(i, j) for i in range(k) for j in range(k)] if kind == "d" else [(i, j) for i in range(k) for j in range(i, k)]
    on = {p: float(3 + 2 * i) for i, p in enumerate(allp) if mask >> i & 1}

    def make():  # of the names in force
        g = nx.DiGraph() if kind == "d" else nx.Graph()
        for i in range(k):
            g.add_node(H[i], label=i)
        for (i, j), w in on.items():
            g.add_edge(H[i], H[j], weight=w)
        return g
    E = set(on)
    if kind == "u":
        E |= {(j, i) for i, j in E}
    g = make()
    before = snapshot(g)
    forms = lambda i: [list(o) for o in itertools.permutations(CH[i])] + [
        [gu.MidiNote(p, 0.0, 1.0, is_drum=bool(p % 2) or len(o) == 1, velocity=p) for p in o] for o in itertools.permutations(CH[i])] if k == 3 else [CH[i][::-1]]
    rec.state((kind, k, mask))
    for i in range(k):
        want = sorted(H[j] for j in range(k) if (i, j) in E)
        for f in forms(i):
            rec.step()
            rec.eq(sorted(B.neighbors(g, f)), want, "neighbors", f"{CH[i]}")
        for j in range(k):
            for f in forms(i):
                for f2 in forms(j):
                    rec.step()
                    rec.check(bool(B.is_connected(g, f, f2)) == ((j, i) in E), "connected", lambda: f"{CH[i]} {CH[j]}")
            rec.check(bool(B.is_connected(g, H[i], H[j])) == ((j, i) in E), "connected-hash")
            for a in itertools.permutations(CH[i]):
                for c in itertools.permutations(CH[j]):
                    want = (H[i], H[j]) if (i, j) in E else None
                    rec.eq(B.get_edge_connected(g, list(a), list(c)), want, "edge")
        rec.eq(B.get_edge_connected(g, CH[i], [1, 2, 3]), None, "edge-unknown")
        rec.eq(B.get_edge_connected(g, [1, 2, 3], CH[i]), None, "edge-unknown")
    for bad in (["60"], [60.0], [None], [(60,)]):
        for f in (lambda: B.neighbors(g, bad), lambda: B.is_connected(g, bad, CH[0]), lambda: B.is_connected(g, CH[0], bad), lambda: B.is_connected(g, H[0], bad)):
            e, x = raises(f)
            rec.check(isinstance(e, ValueError), "foreign-chord", lambda: f"{bad}: {e!r} {x!r}")
    rec.check(snapshot(g) == before, "query-modifies", "a query changed the graph")
    # merging
    queries = H
    for r, names in ((r, names) for names in NAMES for r in range(1, k + 1)):
        H = queries if names is None else names[:k]
        for sub in itertools.permutations(range(k), r):
            rec.step()
            g = make()
            nodes = [H[i] for i in sub]
            new = B.merge_nodes(g, list(nodes))
            rest = [i for i in range(k) if i not in sub]
            rec.eq(sorted(g.nodes), sorted([H[i] for i in rest] + [new]), "merge-nodes")
            rec.check(new not in H, "merge-id", "the merged node reuses a name")
            rec.eq(sorted(g.nodes[new]["merged_nodes"]), sorted(nodes), "merge-attr")
            for i in rest:
                rec.eq(g.nodes[H[i]], {"label": i}, "merge-rest-attr")
            got = {(u, v): d["weight"] for u, v, d in g.edges(data=True)}
            if kind == "u":
                got.update({(v, u): w for (u, v), w in list(got.items())})
            wt = lambda a, c: on.get((a, c), on.get((c, a)) if kind == "u" else None)
            keep = {(H[a], H[c]): wt(a, c) for a, c in E if a in rest and c in rest}
            rec.eq({e: w for e, w in got.items() if new not in e}, keep, "merge-rest")
            for c in rest:
                ws = [wt(a, c) for a in sub if (a, c) in E]
                rec.check(((new, H[c]) in got) == bool(ws), "merge-out", lambda: f"{sub} -> {c}")
                if ws:
                    rec.check(got[new, H[c]] in ws or got[new, H[c]] == sum(ws), "merge-weight",
                              lambda: f"{got[new, H[c]]} not from {ws}")
            rec.outcome(sorted(got.items()))
