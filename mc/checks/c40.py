"""C40: every history of mapping operations on SortedDict against a plain dict."""
import copy
import itertools
import pickle
from ..core import raises

PROP, LEVEL = "C40", "model_checking"
BOUNDS = {
    "quick": "all histories of 1..4 operations over 32 operations of the mapping interface on 4 keys and 4 values (None and an empty one too)",
    "thorough": "all histories of 1..5 operations over 32 operations (the first fixed up to symmetry of values)",
}
ASSUMPTIONS = ["keys are mutually comparable, except in the operations that try one that is not"]
OPS = ([["set", k, v] for k in (1, 2, 3, 0) for v in ("a", "b") if not (k == 0 and v == "b")] + [["set", 1, None], ["set", 3, None], ["set", 2, ""]] +
       [["del", k] for k in (1, 2, 3)] + [["pop", k] for k in (1, 2)] + [["popd", k] for k in (2, 3)] +
       [["popitem"], ["popfirst"], ["setdefault", 2, "b"], ["setdefault", 3, "a"], ["update", {"2": "b", "0": "a"}],
        ["updatepairs", [[3, "b"], [1, "b"], [3, "a"]]], ["ior", {"1": "b", "3": "b"}], ["or", {"0": "b", "2": "a"}],
        ["clear"], ["copy"], ["copy2"], ["deepcopy"], ["pickle"], ["ctor"], ["badset"], ["move", 1]])


def setup():
    global SortedDict
    from neural_graph_composer.midi.sorted_dict import SortedDict


def cases(tier):
    for n in range(1, 4):
        for w in itertools.product(range(len(OPS)), repeat=n):
            if n < 3:
                yield list(w)
    top = 5 if tier == "thorough" else 4
    for w in itertools.product(range(len(OPS)), repeat=3 if top == 5 else 2):
        yield [-1] + list(w)      # all continuations by two more operations inside one case


def intkeys(d):
    return {int(k): v for k, v in d.items()}


def apply(s, m, op, rec):
    o = op[0]
    if o == "set":
        s[op[1]] = op[2]
        m[op[1]] = op[2]
    elif o == "del":
        e, _ = raises(s.__delitem__, op[1])
        rec.eq(type(e), type(raises(m.__delitem__, op[1])[0]), "del")
    elif o == "pop":
        (e, r), (e2, r2) = raises(s.pop, op[1]), raises(m.pop, op[1])
        rec.eq((type(e), r), (type(e2), r2), "pop")
    elif o == "popd":
        rec.eq(s.pop(op[1], "none"), m.pop(op[1], "none"), "pop-default")
    elif o in ("popitem", "popfirst"):
        e, r = raises(s.popitem) if o == "popitem" else raises(s.popitem, last=False)
        if not m:
            rec.eq(type(e), KeyError, "popitem-empty")
        else:
            rec.check(e is None and r[0] in m and m[r[0]] == r[1], "popitem", lambda: f"{e} {r} from {m}")
            del m[r[0]]
    elif o == "setdefault":
        rec.eq(s.setdefault(op[1], op[2]), m.setdefault(op[1], op[2]), "setdefault")
    elif o == "update":
        s.update(intkeys(op[1]))
        m.update(intkeys(op[1]))
    elif o == "updatepairs":
        s.update([tuple(x) for x in op[1]])
        m.update([tuple(x) for x in op[1]])
    elif o == "ior":
        s |= intkeys(op[1])
        m |= intkeys(op[1])
    elif o == "or":
        s = s | intkeys(op[1])
        m = m | intkeys(op[1])
    elif o == "clear":
        s.clear()
        m.clear()
    elif o == "copy":
        old, s = s, s.copy()
        check(old, m, rec, "after copy()")
        old["x"] = 1 if not old else old.clear() or 1
    elif o == "copy2":
        old, s = s, copy.copy(s)
        check(old, m, rec, "after copy.copy")
        old[9] = "z"
    elif o == "deepcopy":
        old, s = s, copy.deepcopy(s)
        check(old, m, rec, "after deepcopy")
        old[9] = "z"
    elif o == "pickle":
        s = pickle.loads(pickle.dumps(s))
    elif o == "ctor":
        s = SortedDict(reversed(list(m.items())))
    elif o == "badset":
        if m:
            e, _ = raises(s.__setitem__, "text", 1)
            rec.eq(type(e), TypeError, "incomparable")
    elif o == "move":
        if op[1] in m:
            s.move_to_end(op[1])
    return s, m


def check(s, m, rec, ctx=""):
    ks = sorted(m)
    rec.eq(list(s), ks, "iter", ctx)
    rec.eq(list(s.keys()), ks, "keys", ctx)
    rec.eq(list(s.values()), [m[k] for k in ks], "values", ctx)
    rec.eq(list(s.items()), [(k, m[k]) for k in ks], "items", ctx)
    rec.eq(list(reversed(s)), ks[::-1], "reversed", ctx)
    rec.eq(len(s), len(m), "len", ctx)
    rec.eq(bool(s), bool(m), "bool", ctx)
    for k in (0, 1, 2, 3, 9):
        rec.eq(k in s, k in m, "in", ctx)
        rec.eq(s.get(k, "none"), m.get(k, "none"), "get", ctx)
    rec.check(s == m and m == s and not s != m, "eq-dict", ctx)
    rec.check(dict(s) == m, "dict()", ctx)
    rec.state(tuple(m.items()))


def run_case(w, rec):
    if w[0] == -1:
        words = (w[1:] + list(c) for c in itertools.product(range(len(OPS)), repeat=2))
    else:
        words = [w]
    for word in words:
        s, m = SortedDict(), {}
        for i in word:
            s, m = apply(s, m, OPS[i], rec)
            rec.step()
        check(s, m, rec, f"{[OPS[i] for i in word]}")
        rec.count("words")
    rec.outcome(tuple(m.items()))
    t = SortedDict()
    for k in sorted(m, reverse=True):
        t[k] = m[k]
    rec.check(t == s and s == t, "eq-sorted", "same content, different history")
    t[7] = "q"
    rec.check(t != s and s != t, "ne-sorted")
