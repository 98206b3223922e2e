"""C72: half-open intervals: overlap, containment, gaps and order over all pairs and triples."""
import contextlib
import io
import itertools
import pickle
from ..core import raises

PROP, LEVEL = "C72", "model_checking"
BOUNDS = {
    "quick": "all pairs of intervals with ends on 0..5 (empty and reversed ones too) with every one of 6 data; all "
             "points and ranges on and between the ends; order laws on all triples of 48 intervals",
    "thorough": "ends on 0..8; order laws on all triples of 120 intervals",
}
ASSUMPTIONS = ["ends are exactly representable"]
DATA = [None, "a", 3, 0, "", ()]


def setup():
    global I
    from neural_graph_composer.interval import FloatInterval as I


def cases(tier):
    n = 8 if tier == "thorough" else 5
    r = [(b, e) for b in range(n + 1) for e in range(n + 1)]
    for a in r:
        yield ["pair", list(a), n]
    d = [(b, e, x) for b in range(4) for e in range(4) for x in DATA]
    d = d[::2] if tier != "thorough" else d + [(b + 0.5, b + 1, x) for b in range(4) for x in DATA]
    for a in d:
        yield ["order", list(a), [list(x) for x in d]]


def key(x):
    """begins, then ends, then data; data that cannot be compared by the names of their types"""
    return x[0], x[1], type(x[2]).__name__, 0 if x[2] is None else x[2]


def run_case(case, rec):
    a = case[1]
    b = a[0]
    if case[0] == "order":
        x = I(*a)
        ds = [tuple(d) for d in case[2]]
        for d in ds:
            y = I(*d)
            rec.step()
            rec.eq((x < y, x > y, x == y, x != y), (key(a) < key(d), key(a) > key(d), tuple(a) == d, tuple(a) != d),
                   "order", (a, d))
            rec.check(x != y or hash(x) == hash(y), "hash", (a, d))
        got = sorted([I(*d) for d in ds[::-1]])
        rec.eq([tuple(g) for g in got], sorted(ds, key=key), "sort")
        for v in (1234567.25, 0.1 + 0.2, 1e-7, -3):       # ends that take many digits to write
            for w in (I(v, v + b + 1, a[2]), I(b, b + 1e-9, a[2])):
                for c in (w.copy(), pickle.loads(pickle.dumps(w)), eval(repr(w), {"Interval": I}), eval(str(w), {"Interval": I})):
                    rec.check(tuple(c) == tuple(w) and c == w and hash(c) == hash(w), "copy", repr(w))
        for c in (x.copy(), pickle.loads(pickle.dumps(x)), eval(repr(x), {"Interval": I})):
            rec.eq(tuple(c), tuple(a), "copy", repr(x))
        for d, f in itertools.product(ds, ds):
            y, z = I(*d), I(*f)
            rec.step()
            rec.check(not (x < y and y < z) or x < z, "transitive", (a, d, f))
        rec.state(tuple(a))
        return
    b, e = a
    n = case[2]
    x = I(b, e)
    empty = b >= e
    rec.eq((x.is_null(), x.length()), (empty, 0 if empty else e - b), "length", a)
    pts = [p / 2 for p in range(-1, 2 * n + 3)]
    for p in pts:
        inside = b <= p < e
        rec.eq((x.contains_point(p), x.overlaps(p)), (inside, inside), "point", (a, p))
        if not empty:
            with contextlib.redirect_stdout(io.StringIO()):
                d = x.distance_to(p)
            rec.eq(d, 0 if inside else max(b - p, p - e), "distance", (a, p))
            rec.eq((x.lt(p), x.gt(p), x.ge(p), x.le(p)), (e <= p, b > p, b >= p, e <= p), "order", (a, p))
        rec.step()
    for c, d in itertools.product(range(n + 1), repeat=2):
        y = I(c, d, "other")
        rec.step()
        rec.state((a, c, d))
        over = b < d and c < e
        if not empty and c < d:
            ref = any(b <= p < e and c <= p < d for p in [q / 2 for q in range(2 * n + 1)])
            rec.check(over == ref, "model", "the model is wrong")
            rec.eq((x.overlaps(c, d), x.overlaps(y), y.overlaps(x)), (ref,) * 3, "overlap", (a, c, d))
            size = max(0, min(e, d) - max(b, c))
            rec.eq((x.overlap_size(c, d), x.overlap_size(y), y.overlap_size(x)), (size,) * 3, "size", (a, c, d))
            with contextlib.redirect_stdout(io.StringIO()):
                g = x.distance_to(y), y.distance_to(x)
            rec.eq(g, (max(0, c - e, b - d),) * 2, "distance", (a, c, d))
            rec.eq(x.contains_interval(y), b <= c and d <= e, "contains", (a, c, d))
            rec.eq((x.lt(y), x.gt(y), x.le(y), x.ge(y)), (e <= c, b >= d, e <= d, b >= c), "order", (a, c, d))
            rec.nontrivial += over
        else:
            for f in (x.lt, x.gt, x.le, x.ge):
                rec.check(isinstance(raises(f, y)[0], ValueError), "null", (a, c, d))
        rec.eq(x.range_matches(y), (b, e) == (c, d), "matches", (a, c, d))
    rec.outcome(a)
