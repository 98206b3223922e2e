"""C04: graph -> tensor conversion over all small graphs."""
import itertools
from .. import gutil as gu
from ..core import raises

PROP, LEVEL = "C04", "model_checking"
BOUNDS = {
    "quick": "all digraphs with self-loops on 1..3 nodes (512 for 3) x 3 edge insertion orders x 3 attribute layouts, undirected ones, all single malformations; all selections of up to three of four node attributes and of two edge attributes, on directed graphs on 1..3 nodes, with and without a doubled edge and a name shared by nodes and edges",
    "thorough": "additionally all loop-free digraphs on 4 nodes (4096) and all 65536 digraphs with loops on 4 nodes in one layout",
}
ASSUMPTIONS = ["node attributes are tensors of one shape, as the builder makes them (one-hot chords of different sizes are the recorded finding)"]
LABELS = [8_123_456_789, -5, 77, "x"]


def setup():
    gu.load()


def digraphs(n, loops=True):
    pairs = [(u, v) for u in range(n) for v in range(n) if loops or u != v]
    for bits in range(1 << len(pairs)):
        yield [p for i, p in enumerate(pairs) if bits >> i & 1]


def cases(tier):
    th = tier == "thorough"
    yield ["onehot"]
    for n in (1, 2, 3):
        for es in digraphs(n):
            for order in range(3):
                for lay in range(3):
                    yield ["di", n, es, order, lay]
    for n in (1, 2, 3, 4):
        pairs = [(u, v) for u in range(n) for v in range(u, n)]
        for bits in range(1 << len(pairs)):
            yield ["un", n, [p for i, p in enumerate(pairs) if bits >> i & 1]]
    for n in (2, 3):
        for es in digraphs(n):
            if n == 3 and len(es) > 4:
                continue
            for node in range(n):
                for kind in ("missing", "extra"):
                    yield ["badnode", n, es, node, kind]
            if len(es) > 1:
                for k in range(len(es)):
                    for kind in ("missing", "extra"):
                        yield ["badedge", n, es, k, kind]
    for n in (1, 2, 3):
        for es in digraphs(n, n < 3):
            if es:
                for clash in (0, 1):
                    for multi in (0, 1):
                        yield ["group", n, es, clash, multi]
    if th:
        for es in digraphs(4, False):
            for order in range(3):
                yield ["di", 4, es, order, 0]
        for es in digraphs(4):
            yield ["di", 4, es, 0, 1]


def run_case(case, rec):
    kind, torch, nx = case[0], gu.torch, gu.nx
    if kind == "onehot":
        g = nx.DiGraph()
        g.add_node(1, attr=torch.eye(4)[:2], node_hash=1)
        g.add_node(2, attr=torch.eye(4)[:1], node_hash=2)
        g.add_edge(1, 2, weight=1.0)
        try:
            d = gu.MidiGraphBuilder.from_midi_networkx(g)
        except RuntimeError as e:
            rec.fail("onehot-unequal-chords", f"one-hot chords of 2 and 1 pitches: {e}")
        rec.eq(int(d.num_nodes), 2, "onehot-nodes")
        return
    if kind == "group":
        return group(case, rec)
    n, es = case[1], [tuple(e) for e in case[2]]
    order = case[3] if kind == "di" else 0
    lay = case[4] if kind == "di" else 0
    if order == 1:
        es = es[::-1]
    elif order == 2:
        es = es[1::2] + es[::2]
    g = (nx.Graph if kind == "un" else nx.DiGraph)()
    feats = {}
    nodes = list(range(n)) if order != 2 else list(range(n))[::-1]
    for i in nodes:
        attr = dict(attr=torch.tensor([float(i), 60.0 + i, 0.0]) if lay != 1 else
                    torch.tensor([[60.0 + i, 0.0], [float(i), 1.0]]), node_hash=1000 + i)
        if lay == 2:
            attr["label"] = frozenset({i})
        feats[LABELS[i]] = attr["attr"].clone()
        if kind == "badnode" and i == case[3]:
            if case[4] == "missing":
                attr.pop("node_hash")
            else:
                attr["zzz"] = 1
        g.add_node(LABELS[i], **attr)
    for k, (u, v) in enumerate(es):
        a = dict(weight=float(1 + u * 4 + v + (7 if k % 2 else 0)))
        if lay == 2:
            a["kind"] = float(k)
        if kind == "badedge" and k == case[3]:
            if case[4] == "missing":
                a.pop("weight")
            else:
                a["zzz"] = 1
        g.add_edge(LABELS[u], LABELS[v], **a)
    before = ([(x, {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in d.items()}) for x, d in g.nodes(data=True)],
              [(u, v, dict(d)) for u, v, d in g.edges(data=True)])
    rec.step()
    kw = dict(group_edge_attrs=["weight", "kind"]) if lay == 2 and es else {}
    if kind in ("badnode", "badedge"):
        try:
            gu.MidiGraphBuilder.from_midi_networkx(g)
        except ValueError:
            rec.outcome("refused")
            return
        rec.fail("malformed-accepted", f"{case}")
    if not es:
        # nothing to carry weights: conversion is documented for graphs with edges
        try:
            d = gu.MidiGraphBuilder.from_midi_networkx(g, **kw)
        except KeyError:
            rec.fail("no-edges", "a graph without edges cannot be converted")
    else:
        d = gu.MidiGraphBuilder.from_midi_networkx(g, **kw)
    order_nodes = list(g.nodes)
    rec.eq(d.num_nodes, n, "num-nodes")
    rec.check(d.x.shape[0] == n and all(torch.equal(d.x[i], feats[x]) for i, x in enumerate(order_nodes)),
              "features", lambda: f"{d.x.tolist()}")
    rec.eq(list(d.node_hash), [g.nodes[x]["node_hash"] for x in order_nodes], "node-hash")
    pos = {x: i for i, x in enumerate(order_nodes)}
    h = g.to_directed() if kind == "un" else g
    want = [(pos[u], pos[v]) for u, v in h.edges]
    got = list(map(tuple, d.edge_index.t().tolist()))
    rec.state((n, tuple(got)))
    if kind == "un":
        rec.check(sorted(got) == sorted(want), "undirected-edges", lambda: f"{got} vs {want}")
    else:
        rec.eq(got, want, "edge-order")
    rec.eq(list(d.edge_index.shape), [2, len(want)], "edge-shape")
    if es:
        gw = {e: w for e, w in zip(got, d.edge_attr.tolist())}
        rec.eq(d.edge_attr.shape[0], len(got), "weight-count")
        for u, v, dd in h.edges(data=True):
            want_w = [dd["weight"]] + ([dd["kind"]] if "kind" in dd else [])
            rec.eq(gw.get((pos[u], pos[v])), want_w, "weights", f"edge {(pos[u], pos[v])}")
    after = ([(x, {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in dd.items()}) for x, dd in g.nodes(data=True)],
             [(u, v, dict(dd)) for u, v, dd in g.edges(data=True)])
    rec.check(before == after, "input-modified", "the graph given was changed")
    rec.outcome((n, tuple(got)))


def group(case, rec):
    """which attributes of nodes and edges become columns, in what order, and what is left as it was"""
    _, n, es, clash, multi = case
    torch, nx = gu.torch, gu.nx
    edge_w = "w" if clash else "weight"        # an edge attribute may have the name of a node attribute
    g = (nx.MultiDiGraph if multi else nx.DiGraph)()
    cols = {"attr": [], "w": [], "pos2": [], "num": [], "big": []}
    for i in range(n):
        d = dict(attr=torch.tensor([60.0 + i, 3.0 * i]), w=0.5 + i, pos2=torch.tensor([7.0 - i, 1.0, float(i)]).numpy(), num=10 + i, big=(1 << 40) + i, name=f"n{i}")
        g.add_node(LABELS[i], **d)
        for k in cols:
            v = d[k]
            cols[k].append(v.tolist() if hasattr(v, "tolist") else [float(v)])
    ecols = {edge_w: [], "k": []}
    es = [tuple(e) for e in es]
    if multi:
        es = es + es[:1]                        # one edge twice
    for j, (u, v) in enumerate(es):
        g.add_edge(LABELS[u], LABELS[v], **{edge_w: 1.0 + j, "k": 20.0 - j})
    order = [(LABELS.index(u), LABELS.index(v), d) for u, v, d in g.edges(data=True)]
    for u, v, d in order:
        for k in ecols:
            ecols[k].append([d[k]])
    names = list(cols)
    asks = [list(p) for r in (1, 2, 3) for p in itertools.permutations(names[:4], r)] + [["big"]]
    easks = [[edge_w], ["k"], [edge_w, "k"], ["k", edge_w], "all"]
    if not clash:
        easks.append(None)
    for na in [None] + asks:
        for ea in (easks if na is None or len(na) == 1 else easks[3:4]):
            rec.step()
            ctx = f"{case} {na} {ea}"
            d = gu.MidiGraphBuilder.from_midi_networkx(g, na, ea)
            nk = na or ["attr"]
            want = [sum((cols[k][i] for k in nk), []) for i in range(n)]
            rec.eq(d.x.tolist(), want, "group-nodes", ctx)
            ek = {None: ["weight"], "all": [edge_w, "k"]}[ea] if not isinstance(ea, list) else ea
            want = [sum((ecols[k][i] for k in ek), []) for i in range(len(order))]
            rec.eq(d.edge_attr.tolist(), want, "group-edges", ctx)
            rec.eq([tuple(e) for e in d.edge_index.t().tolist()], [(u, v) for u, v, _ in order], "group-index", ctx)
            flat = lambda xs: [float(x) if not hasattr(x, "tolist") else x.tolist() for x in xs]
            for k in cols:
                rec.check((k in d) == (k not in nk), "group-left", lambda: f"{ctx}: {k} {d}")
                if k not in nk:
                    rec.eq(flat(d[k]), [c[0] if len(c) == 1 else c for c in cols[k]], "group-rest", f"{ctx} {k}")
            for k in ecols:
                kk = "edge_" + k if k in cols else k
                rec.check((kk in d) == (k not in ek), "group-left", lambda: f"{ctx}: {kk} {d}")
                if k not in ek:
                    rec.eq(flat(d[kk]), [c[0] for c in ecols[k]], "group-rest", f"{ctx} {k}")
            rec.eq(list(d.name), [f"n{i}" for i in range(n)], "group-rest", ctx)
            rec.state((n, tuple(nk), tuple(ek), clash, multi))
    h = g.copy()
    for i in range(n):
        del h.nodes[LABELS[i]]["name"], h.nodes[LABELS[i]]["big"]
    d = gu.MidiGraphBuilder.from_midi_networkx(h, "all", "all")
    rec.eq(d.x.tolist(), [sum((cols[k][i] for k in names[:4]), []) for i in range(n)], "group-all", f"{case}")
    for u, v, k in (h.edges(keys=True) if multi else [(u, v, None) for u, v in h.edges]):
        e = h.edges[u, v, k] if multi else h.edges[u, v]
        e["large"] = (1 << 40) + LABELS.index(u) * 4 + LABELS.index(v)
    d = gu.MidiGraphBuilder.from_midi_networkx(h, None, ["large"])
    rec.eq(d.edge_attr.tolist(), [[(1 << 40) + u * 4 + v] for u, v, _ in order], "group-large", f"{case}")
    for bad in (["attr", "nothing"], ["nothing"]):
        e, x = raises(gu.MidiGraphBuilder.from_midi_networkx, g, bad)
        rec.check(e is not None, "group-unknown", lambda: f"{case}: {bad} gives {x}")
