"""C45: value semantics of instrument descriptions over all numbers and attribute combinations."""
import itertools
from ..core import raises

PROP, LEVEL = "C45", "model_checking"
BOUNDS = {
    "quick": "all instrument numbers 0..255 (and -3..-1, 256..260 refused) x 8 names x drum flag; every number x drum flag x 7 names against itself, its neighbours and 14 further numbers x drum flag x 7 names",
    "thorough": "as quick, all pairs over 256 numbers x 7 names x drum flag",
}
ASSUMPTIONS = ["names by ranges of eight numbers starting at one, as in the instrument map"]
FAM = ["Piano", "Chromatic Percussion", "Organ", "Guitar", "Bass", "Strings", "Ensemble", "Brass", "Reed", "Pipe",
       "Synth Lead", "Synth Pad", "Synth Effects", "Ethnic", "Percussive", "Sound Effects"]
NAMES = ["", "Piano", "my synth", "Unknown", " ", "Piano ", "piano", "x" * 300]


def setup():
    global M
    from neural_graph_composer.midi.midi_instruments import MidiInstrumentInfo as M


def cases(tier):
    for n in range(-3, 261):
        yield ["one", n]
    for a in range(256):
        nums = range(256) if tier == "thorough" else {a, a - 1, a + 1, a ^ 128, 255 - a, 0, 1, 8, 9, 16, 17, 64, 127, 128, 129, 200, 255}
        yield ["pairs", a, sorted(b for b in nums if 0 <= b <= 255)]


def run_case(case, rec):
    if case[0] == "one":
        n = case[1]
        fam = FAM[(n - 1) // 8] if 1 <= n <= 128 else "Unknown"
        for name in NAMES:
            for d in (False, True):
                rec.step()
                e, i = raises(M, n, name, d)
                if not 0 <= n <= 255:
                    rec.eq(type(e), ValueError, "range", f"{n}")
                    rec.eq(type(raises(M.from_dict, {"instrument_num": n, "name": name, "is_drum": d})[0]), ValueError, "range-dict")
                    continue
                want = (n, name or fam, d)
                rec.check(e is None, "refused", lambda: f"{want} {e!r}")
                rec.eq((i.instrument_num, i.name, i.is_drum), want, "attributes")
                dd = i.to_dict()
                rec.eq(dd, {"instrument_num": n, "name": want[1], "is_drum": d}, "dict")
                dd["name"] = "".join(list(dd["name"]))      # as read from elsewhere
                j = M.from_dict(dd)
                rec.check(j == i and hash(j) == hash(i) and not j != i, "roundtrip", lambda: f"{i} {j}")
                rec.eq((i.instrument_num, i.name, i.is_drum), want, "attributes-after")
                rec.state(want)
        for bad in ((str(n), "x", False), (n, 3, False), (n, "x", 1), (n + 0.5, "x", False), (None, "x", False)):
            rec.check(isinstance(raises(M, *bad)[0], (TypeError, ValueError)), "type", lambda: f"{bad}")
        if 0 <= n <= 255:
            k = M.from_dict({"instrument_num": n})
            rec.eq((k.instrument_num, k.name, k.is_drum), (n, fam, False), "defaults")
    else:
        _, a, nums = case
        names = ["", "my synth", "Piano", "Percussive", "Piano ", "piano", " "]
        for d, nm in itertools.product((False, True), names):
            x = M(a, "".join(list(nm)), d)          # a string of its own
            for b in nums:
                for d2, nm2 in itertools.product((False, True), names):
                    y = M(b, nm2, d2)
                    rec.step()
                    same = (x.instrument_num, x.name, x.is_drum) == (y.instrument_num, y.name, y.is_drum)
                    rec.check((x == y) is same and (x != y) is (not same), "eq", lambda: f"{x} {y}")
                    if same:
                        rec.check(hash(x) == hash(y), "hash")
                    rec.eq(len({x, y}), 1 if same else 2, "set")
                    rec.check((x < y) == (a < b), "lt", lambda: f"{x} {y}")
            for z in (a, nm, None, (x.instrument_num, x.name, x.is_drum), [x.instrument_num, x.name, x.is_drum], x.to_dict(), {x}, object()):
                rec.check((x == z) is False and (x != z) is True, "eq-other-kind", lambda: f"{x} {z}")
            rec.check(x != a and not x == "x" and x != None, "eq-other")  # noqa
            rec.state((a, nm, d))
