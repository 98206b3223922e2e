"""C42: laws of the closed-interval algebra over all pairs and triples."""
import itertools

PROP, LEVEL = "C42", "model_checking"
BOUNDS = {
    "quick": "all pairs and triples of intervals with end points in -2..3 (and halves for points), mixed int/float",
    "thorough": "all pairs of intervals with end points in -6..6 step 1/2, all triples with end points in -3..4",
}
ASSUMPTIONS = ["intervals have start <= end"]


def setup():
    global Interval
    from neural_graph_composer.midi.Interval import Interval


def ivs(lo, hi, step=1):
    pts = []
    x = lo
    while x <= hi:
        pts.append(x)
        x += step
    return [(a, b) for a in pts for b in pts if a <= b]


def cases(tier):
    th = tier == "thorough"
    L = ivs(-6, 6, 0.5) if th else ivs(-2, 3, 0.5)
    for a in L:
        yield ["pairs", list(a)]
    T = ivs(-3, 4) if th else ivs(-2, 3)
    for a in T:
        yield ["triples", list(a)]


def run_case(case, rec):
    kind, a = case
    a = tuple(a)
    th = rec.th if hasattr(rec, "th") else False
    lo, hi = (-6, 6)
    A = Interval(*a)
    if kind == "pairs":
        pts = [x / 4 for x in range(-28, 29)]
        for p in pts + [int(p) for p in pts]:
            rec.eq(p in A, a[0] <= p <= a[1], "contains", f"{p} in {a}")
        for b in ivs(lo, hi, 0.5):
            B = Interval(*b)
            rec.step()
            rec.state((a, b))
            rec.eq(A == B, a == b, "eq")
            rec.eq(A != B, a != b, "ne")
            if a == b:
                rec.eq(hash(A), hash(B), "hash")
            rec.eq(A < B, a < b, "lt", f"{a} {b}")
            rec.eq(A > B, a > b, "gt", f"{a} {b}")
            rec.eq(A <= B, a <= b, "le", f"{a} {b}")
            rec.eq(A >= B, a >= b, "ge", f"{a} {b}")
            common = [p for p in pts if a[0] <= p <= a[1] and b[0] <= p <= b[1]]
            rec.eq(A.overlaps(B), bool(common), "overlaps", f"{a} {b}")
            I = A.intersection(B)
            if common:
                rec.eq([p for p in pts if p in I], common, "intersection", f"{a} {b}")
                rec.eq((I.start, I.end), (max(a[0], b[0]), min(a[1], b[1])), "intersection-ends")
            else:
                rec.check(I is None, "no-intersection", lambda: f"{a} {b}: {I}")
            U = A.union(B)
            rec.eq((U.start, U.end), (min(a[0], b[0]), max(a[1], b[1])), "union", f"{a} {b}")
            rec.eq((A.start, A.end, B.start, B.end), a + b, "unchanged")
            rec.outcome((str(I), str(U)))
        rec.check(A != a and A != "x" and not A == 3, "eq-other-type")
        rec.eq(str(A), f"[{a[0]}, {a[1]}]", "text")
    else:
        L = ivs(-3, 4)
        for b, c in itertools.product(L, repeat=2):
            B, C = Interval(*b), Interval(*c)
            rec.step()
            rec.state((a, b, c))
            if A < B and B < C:
                rec.check(A < C, "transitive", lambda: f"{a} {b} {c}")
            rec.eq([(x.start, x.end) for x in sorted([A, B, C])], sorted([a, b, c]), "sorted")
            rec.eq(len({A, B, C}), len({a, b, c}), "set")
            rec.check(A.union(B).union(C) == A.union(B.union(C)), "union-assoc")
            x = A.intersection(B)
            y = B.intersection(C)
            rec.check((x.intersection(C) if x else None) == (A.intersection(y) if y else None), "intersection-assoc")
