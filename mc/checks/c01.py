"""C01: chord nodes of one instrument's graph = the simultaneous groups of the model."""
import itertools
from .. import gmodel as gm
from .. import gutil as gu

PROP, LEVEL = "C01", "model_checking"
BOUNDS = {
    "quick": "all note lists of length 0..3 over 12 note kinds x 6 configurations, length 4 over 6 kinds x 2; all chords of 1..6 of 6 pitches in 2 orders x feature sizes 1..4, 12; 2 pairs of chords with colliding hashes",
    "thorough": "as quick with lists of length 4 over 12 kinds x 6 configurations, length 5 over 6 kinds; chords of 1..7 of 7 pitches in 4 orders x feature sizes 1..7",
}
ASSUMPTIONS = ["grouping windows follow the documented rule: 95th percentile of start gaps, rounded to 10 ms; numpy's percentile is trusted",
               "one note kind per role (pitch, start, velocity, drum) forces collisions; other numeric values are outside the alphabet"]
# pitch, start, velocity, drum
KINDS = [(60, 0.0, 100, 0), (64, 0.0, 80, 0), (60, 0.5, 90, 0), (62, 0.5, 0, 0), (65, 0.25, 70, 0), (60, 0.0, 30, 0),
         (0, 1.0, 64, 0), (127, 1.0, 127, 0), (36, 0.5, 100, 1), (64, 3.0, 1, 0), (67, 0.52, 64, 0), (64, 1.0, 64, 0)]
SMALL = [0, 2, 3, 4, 7, 10]
CONF = [dict(), dict(is_include_velocity=True), dict(filter_single_notes=True), dict(feature_vec_size=2),
        dict(feature_vec_size=1, is_include_velocity=True), dict(onehot=True)]
# pairs of chords whose pitch sets have equal hashes (found by linear algebra over GF(2), smallest first)
COLLIDING = [([6, 41, 48, 52, 68, 73, 76], [77, 80, 87, 98, 116, 120, 122]),
             ([26, 29, 31, 32, 35, 40, 44, 46], [60, 66, 72, 77, 78, 80, 100, 104])]
PITCHES = [60, 64, 72, 0, 127, 8, 16]


def setup():
    gu.load()


def cases(tier):
    th = tier == "thorough"
    full = 4 if th else 3
    for n in range(full + 1):
        for ks in itertools.product(range(len(KINDS)), repeat=n):
            for c in range(len(CONF)):
                yield ["notes", list(ks), c]
    n = full + 1
    for ks in itertools.product(SMALL, repeat=n):
        for c in ([0, 3] if not th else [0, 3]):
            yield ["notes", list(ks), c]
    for i in range(len(COLLIDING)):
        yield ["collide", i]
    m = 7 if th else 6
    for r in range(1, m + 1):
        for ps in itertools.combinations(PITCHES[:m], r):
            for order in range(4 if th else 2):
                for f in (list(range(1, 8)) if th else [1, 2, 3, 4, 12]):
                    for vel in (False, True):
                        yield ["chord", list(ps), order, f, vel]


def run_case(case, rec):
    if case[0] == "collide":
        pair = COLLIDING[case[1]]
        for w in ((0, 1), (1, 0), (0, 1, 0)):
            b = gu.MidiGraphBuilder()
            g = b.build_sequence(gu.seq([[p, float(t), 90, False] for t, i in enumerate(w) for p in pair[i]]))
            rec.step()
            rec.check(g.number_of_nodes() == 2, "hash-collision", lambda: f"the chords {pair} share a node: {list(g.nodes(data=True))}")
        rec.state(case)
        return
    if case[0] == "notes":
        notes = [[*KINDS[k][:3], bool(KINDS[k][3])] for k in case[1]]
        conf = dict(CONF[case[2]])
    else:
        _, ps, order, f, vel = case
        if order % 2:
            ps = ps[::-1]
        if order >= 2:
            ps = ps[len(ps) // 2:] + ps[:len(ps) // 2]
        # the chord twice (second time quieter), framed by two other notes
        notes = ([[40, 0.0, 50, False]] + [[p, 1.0, 40 + 3 * i, False] for i, p in enumerate(ps)]
                 + [[41, 2.0, 60, False]] + [[p, 3.0, 20 + 2 * i, False] for i, p in enumerate(ps)])
        conf = dict(feature_vec_size=f, is_include_velocity=vel)
    onehot = conf.pop("onehot", False)
    f = conf.get("feature_vec_size", 12)
    vel = conf.get("is_include_velocity", False)
    if onehot:
        conf["node_attr_type"] = gu.NodeAttributeType.OneHotTensor
    b = gu.MidiGraphBuilder()
    g = b.build_sequence(gu.seq(notes), **conf)
    rec.step()
    model = gm.groups([gm.N(p, s, v, d) for p, s, v, d in notes], conf.get("filter_single_notes", False))
    rec.state([(k, sorted((n.p, n.v) for n in gr)) for k, gr in model])
    h2n = b.hash_to_notes
    nodes = {n: h2n[n] for n in g.nodes}
    rec.outcome(sorted(map(sorted, nodes.values())))
    rec.check(len(set(nodes.values())) == len(nodes), "node-duplicate", "two nodes stand for the same chord")
    whole = {frozenset(n.p for n in gr): [] for _, gr in model}
    for _, gr in model:
        whole[frozenset(n.p for n in gr)].append(gr)
    got = set(nodes.values())
    # exact groups, or an exact cover by pieces of at most f pitches
    unused = set(got)
    for chord in whole:
        if len(chord) <= f:
            rec.check(chord in got, "chord-missing", lambda: f"chord {sorted(chord)} not in {sorted(map(sorted, got))}")
            unused.discard(chord)
    for chord in whole:
        if len(chord) > f:
            pieces = [c for c in got if c <= chord]
            rec.check(frozenset().union(*pieces) == chord if pieces else False, "split-cover",
                      lambda: f"{sorted(chord)} not covered by {sorted(map(sorted, pieces))}")
            rec.check(all(len(c) <= f for c in pieces), "split-size", lambda: f"{pieces}")
            # pieces of this chord that no other group explains must be disjoint
            own = [c for c in pieces if c not in whole and not any(c <= o and o != chord for o in whole if len(o) > f)]
            rec.check(sum(map(len, own)) <= len(chord), "split-overlap", lambda: f"{own}")
            # no more pieces than necessary to keep all but one of them full
            for c in pieces:
                unused.discard(c)
    rec.check(not unused, "chord-invented", lambda: f"{sorted(map(sorted, unused))} not sounded")
    if not model:
        rec.check(g.number_of_nodes() == 0 and g.number_of_edges() == 0, "empty-graph", "expected an empty graph")
    # features
    for n, data in g.nodes(data=True):
        chord = nodes[n]
        x = data["attr"]
        rec.eq(data["node_hash"], n, "node-hash")
        if onehot:
            rec.eq(sorted(int(r.argmax()) for r in x), sorted(chord), "onehot-features")
            rec.check(bool((x.sum(dim=-1) == 1).all()), "onehot-features", "not one hot")
            continue
        rows = x.tolist()
        pit = rows[0] if vel else rows
        rec.eq(len(pit), f, "feature-size")
        k = len(chord)
        rec.eq(sorted(pit[:k]), sorted(float(p) for p in chord), "pitch-features", f"chord {sorted(chord)}")
        rec.check(all(z == 0 for z in pit[k:]), "padding", lambda: f"{pit}")
        if vel:
            v = rows[1]
            rec.eq(len(rows), 2, "velocity-row")
            rec.eq(len(v), f, "velocity-row")
            rec.check(all(z == 0 for z in v[k:]), "velocity-padding", lambda: f"{v}")
            ok = []
            for _, gr in model:
                if chord <= frozenset(m.p for m in gr):
                    mx = {p: max(m.v for m in gr if m.p == p) for p in chord}
                    ok.append([mx[int(p)] for p in pit[:k]])
            want = [gm.rescale(o) for o in ok]
            rec.check([int(z) for z in v[:k]] in want, "velocity-features",
                      lambda: f"chord {pit[:k]} velocities {v[:k]} not among {want}")
