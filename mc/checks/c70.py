"""C70: the interval tree as a set of intervals with queries.

For each of a family of universes of intervals, ALL reachable states of the real
tree are explored: from the empty tree, every addition and every removal of every
interval of the universe is applied in every state, until no new state (shape of
the tree included) appears.  In every state every query is compared with the same
question asked of the plain set.
"""
import itertools
import pickle
from collections import abc
from ..core import raises

PROP, LEVEL = "C70", "model_checking"
BOUNDS = {
    "quick": "all reachable states (shape included) of trees over every universe of 5 of the 10 intervals with ends "
             "0..4, the 6 intervals with ends 0..3 and two of other data, 8 adjacent intervals, 7 nested, 7 "
             "staggered, 7 overlapping at two depths, 6 disjoint with one over all, 6 and 7 around zero, 6 with data that count "
             "as false and three of 6 or 7 with several in one node; in each state every addition, removal and query, at ends, between and "
             "outside them",
    "thorough": "all reachable states over every universe of 6 of the 10 intervals with ends 0..4, of 7 of them that "
                "hold the longest, of all 10 intervals with 4 held at most, of 8 intervals of each length 1..4 and 8 nested ones, of 9 "
                "adjacent ones and of 10 with 7 held at most",
}
ASSUMPTIONS = ["ends are exactly representable and begins lie before ends (empty intervals are refused)"]


CASE_SECONDS = 800


def setup():
    global T, I
    from neural_graph_composer.interval import FloatInterval as I, FloatIntervalTree as T


def ivs(n):
    return [(b, e, None) for b in range(n) for e in range(b + 1, n + 1)]


def cases(tier):
    for o in itertools.permutations(range(3)):
        yield ["build", list(o)]
    yield ["closure", [(0, 2, None), (1, 3, None), (0, 3, None), (0, 2, "x")]]
    yield ["closure", ivs(3) + [(0, 3, "x"), (1, 2, "y")]]
    for n in ([[(i, i + 1, None) for i in range(8)], [(i, 14 - i, None) for i in range(7)],
               [(i, i + 3, None) for i in range(7)], [(2 * i, 2 * i + 1, None) for i in range(6)] + [(0, 12, "all")],
               [(i, i + 2, None) for i in range(5)] + [(0, 4, None), (3, 7, "z")]]):
        yield ["closure", n]
    # below and around zero; data that count as false; many in one node
    yield ["closure", [(-3, -1, None), (-2, 0, None), (-1, 1, None), (-3, 2, None), (0, 1, 0), (-1, 0, "")]]
    yield ["closure", [(0, 2, 0), (0, 2, ""), (0, 2, None), (1, 3, ()), (1, 3, None), (-2, 1, 0)]]
    yield ["closure", [(-1, 0, None), (-2, -1, None), (-4, 4, None), (-3, 3, None), (-2, 2, None), (0, 1, None), (1, 2, None)]]
    yield ["closure", [(10, 11, None), (20, 21, None), (1, 6, None), (0, 6, None), (0, 7, None), (4, 5, None)]]
    yield ["closure", [(10, 11, None), (20, 21, None), (1, 6, None), (1, 6, "a"), (1, 7, None), (0, 9, None), (4, 5, None)]]
    yield ["closure", [(10, 11, None), (0, 1, None), (12, 18, None), (13, 18, None), (13, 19, None), (15, 16, None), (14, 20, None)]]
    ten = ivs(4)
    for s in itertools.combinations(ten, 6 if tier == "thorough" else 5):
        yield ["closure", list(s)]
    if tier == "thorough":
        for s in itertools.combinations([x for x in ten if x != (0, 4, None)], 6):
            yield ["closure", list(s) + [(0, 4, None)]]
        yield ["bounded", ten, 4]
        for k in (1, 2, 3, 4):
            yield ["closure", [(i, i + k, None) for i in range(8)]]
        yield ["closure", [(i, 16 - i, None) for i in range(8)]]
        yield ["closure", [(i, i + 1, None) for i in range(9)]]
        yield ["bounded", [(i, i + 1, None) for i in range(10)], 7]


def shape(o):
    """what a state consists of, however it is represented"""
    if o is None or isinstance(o, (int, float, str)):
        return o
    if isinstance(o, tuple):
        return tuple(o)
    if isinstance(o, abc.Set):
        return ("set", tuple(sorted((shape(x) for x in o), key=repr)))
    if isinstance(o, abc.Mapping):
        return ("map", tuple(sorted(((shape(k), shape(v)) for k, v in o.items()), key=repr)))
    if isinstance(o, abc.Sequence):
        return ("list", tuple(shape(x) for x in o))
    names = {n for c in type(o).__mro__ for n in getattr(c, "__slots__", ())} | set(getattr(o, "__dict__", ()))
    return (type(o).__name__, tuple((n, shape(getattr(o, n, None))) for n in sorted(names)))


def clone(t, word):
    try:
        state = pickle.loads(pickle.dumps(t.__dict__))
    except Exception:               # a state that cannot be copied is made again
        c = T()
        for add, x in word:
            (c.add if add else c.remove)(I(*x))
        return c
    c = T.__new__(T)
    c.__dict__.update(state)
    return c


def plain(s):
    return {(x.begin, x.end, x.data) for x in s}


def expected(m, pts):
    """every question about the set m and its answer"""
    q = []
    for p in pts:
        want = {x for x in m if x[0] <= p < x[1]}
        q += [("at", (p,), want), ("__getitem__", (p,), want), ("overlaps", (p,), bool(want))]
    if len(pts) > 13:
        pts = [p for p in pts if p == int(p)] + [pts[0], pts[-1]]
    for b, e in itertools.product(pts, pts):
        want = {x for x in m if b < e and x[0] < e and b < x[1]}
        q += [("overlap", (b, e), want), ("overlaps", (b, e), bool(want))]
        env = {x for x in m if b < e and b <= x[0] and x[1] <= e}
        q.append(("envelop", (b, e), env))
        if b < e:
            q += [("__getitem__", (slice(b, e),), want), ("overlap", (I(b, e),), want),
                  ("overlaps", (I(b, e),), bool(want)), ("envelop", (I(b, e),), env)]
    lo, hi = (min(x[0] for x in m), max(x[1] for x in m)) if m else (0, 0)
    q += [("begin", (), lo), ("end", (), hi), ("span", (), hi - lo)]
    for p in pts[::2] if m else ():
        q += [("__getitem__", (slice(None, p),), {x for x in m if lo < p and x[0] < p}),
              ("__getitem__", (slice(p, None),), {x for x in m if p < hi and p < x[1]})]
    if m:
        q += [("__getitem__", (slice(None, hi),), {x for x in m if x[0] < hi}), ("__getitem__", (slice(lo, None),), m),
              ("__getitem__", (slice(None, None),), m)]
    return q


def questions(t, m, pts, rec, q=None):
    rec.eq(plain(t), m, "contents")
    rec.eq(plain(t.items()), m, "items")
    rec.eq((len(t), t.is_empty(), bool(t)), (len(m), not m, bool(m)), "size")
    r = t.range()
    for name, args, want in q or expected(m, pts):
        got = getattr(t, name)(*args)
        if isinstance(want, (set, frozenset)):
            if len(got) != len(want) or plain(got) != want:
                rec.fail(name.strip("_"), f"{name}{args} of {sorted(m, key=repr)}: {got}, expected {want}")
        elif isinstance(want, bool):
            if bool(got) != want:
                rec.fail(name, f"{name}{args} of {sorted(m, key=repr)}: {got}")
        elif got != want or name == "begin" and r.begin != want or name == "end" and r.end != want:
            rec.fail(name, f"{name}() of {sorted(m, key=repr)}: {got} {r}")


def run_case(case, rec):
    kind = case[0]
    if kind == "build":
        src = [(0, 2, 0), (1, 3, "a"), (2, 4, None)]
        src = [src[i] for i in case[1]]
        for n in range(4):
            for make in (lambda s: T(I(*x) for x in s), lambda s: T.from_tuples(x if x[2] is not None else x[:2] for x in s),
                         lambda s: T([I(*x) for x in s] * 2)):
                t, m = make(src[:n]), set(src[:n])
                rec.step()
                questions(t, m, [x / 2 for x in range(-1, 10)], rec)
                for c in (t.copy(), T(t), T.from_tuples(t), pickle.loads(pickle.dumps(t))):
                    rec.check(c == t and not c != t, "copy", lambda: f"{c} from {t}")
                    c.addi(7, 8)
                    rec.check(c != t, "copy", "a copy with one more interval equals its source")
                    questions(c, m | {(7, 8, None)}, [x / 2 for x in range(-1, 18)], rec)
                questions(t, m, [x / 2 for x in range(-1, 10)], rec)
                t.clear()
                questions(t, set(), [0.5, 1, 3], rec)
                e, _ = raises(T, [I(1, 1)])
                rec.check(isinstance(e, ValueError), "null", "a tree of an empty interval")
        return
    u = [tuple(x) for x in case[1]]
    cap = case[2] if kind == "bounded" else len(u)
    pts = sorted({p for x in u for p in x[:2]})
    pts = sorted(set(pts) | {p + 0.5 for p in pts} | {pts[0] - 0.5})
    start = T()
    questions(start, set(), pts[:4], rec)
    seen = {shape(start.__dict__): True}
    front = [(start, frozenset(), ())]
    asked = {}
    while front:
        nxt = []
        for t, m, word in front:
            for x in u:
                if x not in m and len(m) == cap:
                    continue
                for via in ((0, 1) if x in m else (0,)):
                    c = clone(t, word)
                    rec.step()
                    if x in m:
                        if via:
                            c.discard(I(*x))
                        else:
                            c.remove(I(*x))
                        m2 = m - {x}
                    else:
                        e, _ = raises(c.remove, I(*x))
                        rec.check(isinstance(e, ValueError), "remove-missing", lambda: f"{x} from {sorted(m, key=repr)}: {e!r}")
                        c.discard(I(*x))
                        rec.check((I(*x) in c, c.containsi(*x)) == (False, False), "contains", x)
                        if len(m) % 2:
                            c.add(I(*x))
                        elif x[2] is not None:
                            c[x[0]:x[1]] = x[2]
                        else:
                            c.addi(x[0], x[1])
                        rec.check((I(*x) in c, c.containsi(*x)) == (True, True), "contains", x)
                        c.add(I(*x))
                        m2 = m | {x}
                    k = shape(c.__dict__)
                    if k in seen:
                        continue
                    seen[k] = True
                    rec.state(k)
                    if m2 not in asked:
                        asked[m2] = expected(m2, pts), T(I(*y) for y in m2)
                    questions(c, m2, pts, rec, asked[m2][0])
                    rec.check(c == asked[m2][1], "equality", lambda: sorted(m2, key=repr))
                    nxt.append((c, m2, word + ((x not in m, x),)))
                    rec.nontrivial += len(m2) > 1
        front = nxt
    rec.outcome((len(seen), len(asked)))
    rec.count("reachable tree states", len(seen))
