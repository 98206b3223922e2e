"""C71: cutting, splitting and merging the intervals of a tree.

Every small set of intervals is put in a real tree, every operation (and every pair
of operations on the smaller sets) is applied, and the contents and all queries are
compared with the operation done on the plain set.
"""
import itertools
from . import c70
from ..core import raises

PROP, LEVEL = "C71", "model_checking"
BOUNDS = {
    "quick": "all sets of up to 3 of 13 intervals with ends 0..4 (three ranges with two different data); every cut, "
             "slice, removal, split and merge at every end and between two ends; words of two operations on sets of up "
             "to 2; set operations on all pairs of sets of up to 2 of 7 intervals",
    "thorough": "sets of up to 5, words of two operations on sets of up to 3, pairs of sets of up to 3",
}
ASSUMPTIONS = ["cut ranges are not empty", "neighbours are merged strictly only where no intervals overlap"]
CASE_SECONDS = 300


def setup():
    global T, I
    c70.setup()
    T, I = c70.T, c70.I


U = [(b, e, "abcdefghij"[i]) for i, (b, e, _) in enumerate(c70.ivs(4))] + [(0, 4, "z"), (1, 2, "y"), (2, 3, "x")]
PTS = [0, 1, 1.5, 2, 3, 4]
OPS = ([["chop", b, e, f] for b in PTS for e in PTS if b < e for f in (0, 1)] + [["slice", p, f] for p in PTS for f in (0, 1)] +
       [["rmo", b, e] for b in PTS for e in PTS] + [["rmp", p] for p in PTS] + [["del", p] for p in PTS] +
       [["rme", b, e] for b in PTS for e in PTS] + [["split"]] +
       [["mo", s, r] for s in (0, 1) for r in (0, 1, 2)] + [["me", r] for r in (0, 1, 2)] +
       [["mn", d, s, r] for d in (0, 1, 2, 0.5) for s in (0, 1) for r in (0, 1, 2)] + [["clear"], ["nested"]])
FEW = [o for o in OPS if o[0] != "mn" and not (o[0] in ("chop", "slice") and o[-1]) and 1.5 not in o[1:]]
PP = [x / 2 for x in range(-1, 10)]


def cases(tier):
    top, two, pair = (5, 3, 3) if tier == "thorough" else (3, 2, 2)
    for n in range(top + 1):
        for s in itertools.combinations(range(len(U)), n):
            yield ["one", list(s)]
    small = U[:1] + U[3:5] + U[6:8] + U[10:12]
    sets = [list(s) for n in range(pair + 1) for s in itertools.combinations(range(len(small)), n)]
    small = [U.index(x) for x in small]
    for a in sets:
        yield ["sets", [small[i] for i in a], [[small[i] for i in b] for b in sets]]
    for n in range(1, two + 1):
        for s in itertools.combinations(range(len(U)), n):
            yield ["two", list(s)]


def pieces(x, cuts):
    c = [x[0]] + sorted(p for p in cuts if x[0] < p < x[1]) + [x[1]]
    return {(a, b, x[2]) for a, b in zip(c, c[1:])}


def merge(m, joins, r):
    """r: 0 no reducer, 1 concatenation, 2 with an initial value"""
    out = []
    for x in sorted(m):
        if out and joins(out[-1], x):
            l = out[-1]
            out[-1] = (l[0], max(l[1], x[1]), None if r == 0 else l[2] + x[2])
        else:
            out.append((x[0], x[1], ">" + x[2] if r == 2 else x[2]))
    return set(out)


def kw(r):
    return [{}, {"data_reducer": lambda a, b: a + b}, {"data_reducer": lambda a, b: a + b, "data_initializer": ">"}][r]


def apply(t, m, op, rec):
    """applies op to the tree; what the set becomes (None: does not apply)"""
    o = op[0]
    if o == "chop":
        b, e, f = op[1:]
        if f and any(x[0] == e for x in m):
            return None
        t.chop(b, e, (lambda iv, low: iv.data + ("<" if low else "+")) if f else None)
        out = set()
        for x in m:
            if x[1] <= b or x[0] >= e:
                out.add(x)
                continue
            if x[0] < b:
                out.add((x[0], b, x[2] + "<" if f else x[2]))
            if x[1] > e:
                out.add((e, x[1], x[2] + "+" if f else x[2]))
        return out
    if o == "slice":
        p, f = op[1:]
        t.slice(p, (lambda iv, low: iv.data + ("<" if low else "+")) if f else None)
        out = set()
        for x in m:
            if x[0] < p < x[1]:
                out |= {(x[0], p, x[2] + "<" if f else x[2]), (p, x[1], x[2] + "+" if f else x[2])}
            else:
                out.add(x)
        return out
    if o == "rmo":
        b, e = op[1:]
        t.remove_overlap(b, e)
        return {x for x in m if not (b < e and x[0] < e and b < x[1])}
    if o in ("rmp", "del"):
        p = op[1]
        if o == "rmp":
            t.remove_overlap(p)
        else:
            del t[p]
        return {x for x in m if not x[0] <= p < x[1]}
    if o == "rme":
        b, e = op[1:]
        t.remove_envelop(b, e)
        return {x for x in m if not (b < e and b <= x[0] and x[1] <= e)}
    if o == "split":
        t.split_overlaps()
        cuts = {p for x in m for p in x[:2]}
        return {y for x in m for y in pieces(x, cuts)}
    if o == "clear":
        t.clear()
        return set()
    if o == "nested":
        got = t.find_nested()
        for k, v in got.items():
            for c in v:
                rec.check(tuple(k) in m and tuple(c) in m and k != c and k.begin <= c.begin and c.end <= k.end,
                          "nested", lambda: f"{c} in {k}")
        for a, b in itertools.permutations(m, 2):
            if a[0] <= b[0] and b[1] <= a[1] and a[:2] != b[:2]:
                rec.check(I(*b) in got.get(I(*a), ()), "nested", lambda: f"{b} in {a} is missing from {got}")
            elif a[:2] == b[:2]:
                rec.check(I(*b) in got.get(I(*a), ()) or I(*a) in got.get(I(*b), ()), "nested", lambda: f"{a} {b} {got}")
        return m
    if any(x[2] is None for x in m):
        return None                     # data was given up by an earlier merge
    if o == "mo":
        t.merge_overlaps(strict=bool(op[1]), **kw(op[2]))
        return merge(m, lambda l, x: x[0] < l[1] or not op[1] and x[0] == l[1], op[2])
    if o == "me":
        t.merge_equals(**kw(op[1]))
        return merge(m, lambda l, x: x[:2] == l[:2], op[1])
    if o == "mn":
        d, s, r = op[1:]
        if s and any(a[0] < b[1] and b[0] < a[1] for a, b in itertools.combinations(m, 2)):
            return None
        t.merge_neighbors(distance=d, strict=bool(s), **kw(r))
        return merge(m, lambda l, x: x[0] - l[1] <= d, r)
    raise AssertionError(op)


def after(t, m, rec):
    c70.questions(t, m, PP, rec)
    for x in ((1, 3, "new"), (0.5, 1.5, "new")):         # and the tree still works
        t.addi(*x)
        c70.questions(t, m | {x}, [0, 1, 1.5, 3], rec)
        t.removei(*x)
    c70.questions(t, m, [0.5, 2, 3.5], rec)


def run_case(case, rec):
    if case[0] == "sets":
        a = {U[i] for i in case[1]}
        for other in case[2]:
            b = {U[i] for i in other}
            ta, tb = (lambda: T(I(*x) for x in a)), (lambda: T(I(*x) for x in b))
            for name, want in (("union", a | b), ("intersection", a & b), ("difference", a - b),
                               ("symmetric_difference", a ^ b)):
                for o in (tb(), {I(*x) for x in b}):
                    s = ta()
                    c70.questions(getattr(s, name)(o), want, [0, 1, 1.5, 3], rec)
                    c70.questions(s, a, [0, 1.5], rec)
                    rec.step()
                up = "update" if name == "union" else name + "_update"
                for make in (lambda: tb(), lambda: {I(*x) for x in b}, lambda: frozenset(I(*x) for x in b), lambda: [I(*x) for x in sorted(b)] * 2):
                    s, o = ta(), make()
                    kept = type(o)(o)
                    e, _ = raises(getattr(s, up), o)
                    rec.check(e is None and o == kept, "operand", lambda: f"{up} of {a} with {kept!r}: {e!r}, the operand is now {o!r}")
                    after(s, want, rec)
                s = ta()
                e, _ = raises(getattr(s, up), (I(*x) for x in sorted(b))) if name != "intersection" else (None, s.intersection_update(tb()))
                rec.check(e is None and c70.plain(s) == want, "operand", lambda: f"{up} of {a} with a generator of {b}: {e!r} {s}")
                s = ta()
                getattr(s, up)(s)
                after(s, {"union": a, "intersection": a}.get(name, set()), rec)
            x, y = ta(), tb()
            for got, want in ((x | y, a | b), (x & y, a & b), (x - y, a - b), (x ^ y, a ^ b)):
                rec.check(isinstance(got, T), "operator", type(got))
                c70.questions(got, want, [0, 1, 1.5, 3], rec)
            rec.eq((x == y, x != y, x.isdisjoint(y)), (a == b, a != b, not a & b), "comparison", (a, b))
            rec.state((sorted(a), sorted(b)))
        return
    m0 = {U[i] for i in case[1]}
    if case[0] == "one":
        # a reducer that changes what it is given: the initial value is copied for every series
        for name, kw2, joins in (("merge_overlaps", {}, lambda l, x: x[0] < l[1]), ("merge_overlaps", {"strict": False}, lambda l, x: x[0] <= l[1]),
                                 ("merge_equals", {}, lambda l, x: x[:2] == l[:2]),
                                 ("merge_neighbors", {"strict": False}, lambda l, x: x[0] - l[1] <= 1)):
            t, init = T(I(*x) for x in m0), []
            getattr(t, name)(data_reducer=lambda a, x: a.append(x) or a, data_initializer=init, **kw2)
            want = []
            for x in sorted(m0):
                if want and joins(want[-1], x):
                    want[-1] = (want[-1][0], max(want[-1][1], x[1]), want[-1][2] + [x[2]])
                else:
                    want.append((x[0], x[1], [x[2]]))
            rec.check(sorted(tuple(i) for i in t) == want and init == [], "initial-value", lambda: f"{name} of {sorted(m0)}: {t}, expected {want}; {init}")
        for op in OPS:
            t = T(I(*x) for x in m0)
            m = apply(t, m0, op, rec)
            if m is None:
                continue
            rec.step()
            rec.state((op, sorted(m0)))
            rec.outcome(sorted(m, key=repr))
            rec.nontrivial += m != m0
            after(t, m, rec)
        return
    for op in FEW:
        for op2 in FEW:
            t = T()
            for x in sorted(m0):
                t.add(I(*x))
            m = apply(t, m0, op, rec)
            if m is None:
                continue
            rec.step(2)
            m2 = apply(t, m, op2, rec)
            if m2 is None:
                continue
            rec.check(c70.plain(t) == m2, "two", lambda: f"{op} then {op2} of {sorted(m0)}: {t}, expected {m2}")
            for p in PP:
                got = c70.plain(t.at(p))
                rec.check(got == {x for x in m2 if x[0] <= p < x[1]}, "two", lambda: f"{op} then {op2} of {m0}: at({p})={got}")
            rec.nontrivial += m != m0 and m2 != m
