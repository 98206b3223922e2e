"""C41: histories of operations on the interval-keyed map."""
import itertools
from ..core import raises

PROP, LEVEL = "C41", "model_checking"
IV = [(-3, -1), (-2, 0), (-1, 1), (-3, 0), (1, 1)]
PTS = [None, -4, -3, -2.5, -2, -1, -0.5, 0, 0.5, 1, 2]
OPS = ([["set", i, v] for i in range(5) for v in "ab" if not (i > 2 and v == "b")] + [["set", 1, None], ["set", 3, None], ["set", 4, 0]] + [["del", i] for i in range(4)] +
       [["pop", 1], ["popd", 2], ["popitem"], ["clear"], ["setdefault", 0, "b"], ["update", [[3, "b"], [0, "a"]]],
        ["bad"], ["ctor"], ["delslice", 0, 1], ["delslice", 1, 3]])
BOUNDS = {
    "quick": f"all histories of 1..4 operations over {len(OPS)} operations on 5 overlapping intervals around zero; every pair of slice bounds in every state",
    "thorough": f"all histories of 1..5 operations over {len(OPS)} operations on 5 overlapping intervals around zero; every pair of slice bounds in every state",
}
ASSUMPTIONS = ["intervals have start <= end"]


def setup():
    global SID, Interval
    from neural_graph_composer.midi.sorted_interval_dict import SortedIntervalDict as SID
    from neural_graph_composer.midi.Interval import Interval


def cases(tier):
    for n in (1, 2, 3, 4):
        if n < 4 or tier == "thorough":
            for w in itertools.product(range(len(OPS)), repeat=n):
                yield list(w)


_checked = {}


def check(s, m, rec):
    ks = sorted(m)
    K = [Interval(*k) for k in ks]
    rec.eq(list(s), K, "iter")
    rec.eq(list(s.keys()), K, "keys")
    rec.eq([s[k] for k in K], [m[k] for k in ks], "getitem")
    rec.eq(list(s.items()), [(Interval(*k), m[k]) for k in ks], "items")
    rec.eq(list(s.values()), [m[k] for k in ks], "values")
    rec.eq(len(s), len(m), "len")
    for k in IV + [(-4, 5)]:
        rec.eq(Interval(*k) in s, k in m, "in")
        rec.eq(s.get(Interval(*k), "none"), m.get(k, "none"), "get")
        if k not in m:
            rec.eq(type(raises(s.__getitem__, Interval(*k))[0]), KeyError, "missing")
    key = tuple(sorted(m.items(), key=repr))
    rec.state(key)
    if key in _checked:
        return
    for a in PTS:
        for b in PTS:
            if a is not None and b is not None and a > b:
                continue
            lo = float("-inf") if a is None else a
            hi = float("inf") if b is None else b
            got = s[a:b]
            want = [((x, y), m[x, y]) for x, y in ks if x <= hi and lo <= y]
            rec.eq([((k.start, k.end), v) for k, v in got.items()], want, "slice", f"[{a}:{b}] of {key}")
            rec.step()
    _checked[key] = True


def apply(s, m, op, rec):
    o = op[0]
    if o == "set":
        s[Interval(*IV[op[1]])] = op[2]
        m[IV[op[1]]] = op[2]
    elif o in ("del", "pop"):
        k = IV[op[1]]
        f = s.__delitem__ if o == "del" else s.pop
        e, r = raises(f, Interval(*k))
        if k in m:
            v = m.pop(k)
            rec.check(e is None and (o == "del" or r == v), o, lambda: f"{e!r} {r}")
        else:
            rec.eq(type(e), KeyError, o)
    elif o == "popd":
        k = IV[op[1]]
        rec.eq(s.pop(Interval(*k), "none"), m.pop(k, "none"), "popd")
    elif o == "popitem":
        e, r = raises(s.popitem)
        if not m:
            rec.eq(type(e), KeyError, "popitem")
        else:
            rec.check(e is None and m.pop((r[0].start, r[0].end), "none") == r[1], "popitem", lambda: f"{e!r} {r}")
    elif o == "clear":
        s.clear()
        m.clear()
    elif o == "setdefault":
        k = IV[op[1]]
        rec.eq(s.setdefault(Interval(*k), op[2]), m.setdefault(k, op[2]), "setdefault")
    elif o == "update":
        s.update({Interval(*IV[i]): v for i, v in op[1]})
        m.update({IV[i]: v for i, v in op[1]})
    elif o == "bad":
        for k in (1, "x", (-3, -1)):
            for f in (lambda: s[k], lambda: s.__setitem__(k, "q"), lambda: s.__delitem__(k)):
                rec.eq(type(raises(f)[0]), KeyError, "wrong-key-type")
            rec.check(k not in s, "wrong-key-in")
    elif o == "ctor":
        s = SID({Interval(*k): v for k, v in reversed(list(m.items()))})
    elif o == "delslice":
        ks = sorted(m)[op[1]:op[2]]
        del s[op[1]:op[2]]
        for k in ks:
            del m[k]
    return s, m


def run_case(w, rec):
    for last in range(-1, len(OPS)):
        if last >= 0 and len(w) < 3:
            break
        word = w + ([last] if last >= 0 else [])
        s, m = SID(), {}
        for i in word:
            s, m = apply(s, m, OPS[i], rec)
            rec.step()
        check(s, m, rec)
        rec.outcome(tuple(m.items()))
