"""C57: datasets of all the pieces of a folder, fetched from a server that fails at any point.

The pieces named by the local folder are served from another one.  Every small set of
names and every fault (refused, broken before a byte, in the middle, at the end; the
process ended before or after a file-system call) of every fetch, once or twice in a row,
is followed by an undisturbed run, whose dataset has to be that of the served files.
"""
import contextlib
import io
import itertools
import os
import shutil
import urllib.error
import urllib.request
from . import c51
from .. import dutil as du
from ..core import raises

PROP, LEVEL = "C57", "fault_enumeration"
TECHNIQUE = "explicit-state model checking: exhaustive enumeration of folders, faults of the server and interruption points (one or two in a row), with the repeated run compared to an undisturbed one"
BOUNDS = {
    "quick": "all folders of 1..3 of 4 pieces, with 6 other entries in or beside them, and pieces with 7 unusual names; every fault of every fetch of folders of 1..2 pieces, and every pair of faults of a folder of 2; pieces that the server lacks, and pieces that are already there",
    "thorough": "also every pair of faults of folders of 3 pieces and every triple of a folder of 1",
}
ASSUMPTIONS = ["the server is a folder addressed by a file URL; its faults are those of the connection as urllib reports them",
               "the order of pieces is that in which the folder lists them", "the building of a file's graphs is checked by C01, C02 and C07"]
POOL = c51.POOL
PIECES = ["one", "two", "mixed", "drums"]
ODD = ["a b.mid", "50%41.mid", "why?.mid", "no#1.mid", "ünï.mid", "a+b&c=d.mid", ".mid.mid"]
FAULTS = ["refuse", "start", "half", "end", "ctrl-c"]


def setup():
    c51.setup()
    import fsspec  # noqa
    import torch_geometric.data  # noqa


def cases(tier):
    th = tier == "thorough"
    for n in (1, 2, 3):
        for c in itertools.combinations(PIECES, n):
            if c != ("drums",):
                yield ["folder", list(c)]
    for o in ODD:
        yield ["odd", o]
    yield ["odd", *ODD]
    for c in (["one"], ["two", "one"], ["one", "mixed"]):
        for i in range(len(c)):
            yield ["lacking", c, i]
            yield ["there", c, i]
    for c in (["one"], ["two", "drums"], ["one", "mixed"]):
        for i in range(len(c)):
            for f in FAULTS:
                yield ["fault", c, [[i, f]]]
    for c in (["two", "one"],) + ((["two", "one", "mixed"],) if th else ()):
        for a in itertools.product(range(len(c)), FAULTS):
            for b in itertools.product(range(len(c)), FAULTS):
                yield ["fault", c, [list(a), list(b)]]
    if th:
        for w in itertools.product(FAULTS, repeat=3):
            yield ["fault", ["one"], [[0, f] for f in w]]
    for c in (["one"], ["two", "one"]):
        yield ["crash", c]


def prepare(names):
    """folder of names, and the served files; names maps a file name to a piece"""
    for d in ("loc", "root", "server"):
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs("loc")
    for f, p in names.items():
        du.put(f"server/{f}", du.midi(POOL[p]))
        du.put(f"loc/{f}", b"only its name counts" if p != "one" else b"")


def make(per=True):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return du.MidiDataset(root="root", per_instrument_graph=per, default_midi_loc="loc", default_webserver="file://" + os.path.abspath("server"))


def whole(names, rec, ctx):
    """the dataset in both layouts holds the graphs of the served files"""
    order = [f for f in os.listdir("loc") if f in names]
    for per in (True, False):
        e, ds = raises(make, per)
        rec.step()
        rec.check(e is None, "make", lambda: f"{ctx}: {e!r}")
        got = [du.graph(g, ds.hash_to_notes) for g in ds]
        want = [g for f in order for g in du.direct(du.put("direct/x.mid", du.midi(POOL[names[f]])), per)]
        rec.check(got == want, "content", lambda: f"{ctx}: {got}, served {want}")
        rec.outcome(repr(want))
    for f in order:
        rec.check(open(f"root/raw/{f}", "rb").read() == open(f"server/{f}", "rb").read(), "raw", lambda: f"{ctx}: {f} differs from what is served")


class Server:
    """urllib with a fault in the fetch of number at"""

    def __init__(self, at, fault):
        self.at, self.fault, self.n, self.hit = at, fault, -1, False

    def __enter__(self):
        self.old = urllib.request.urlopen
        urllib.request.urlopen = self.open
        return self

    def __exit__(self, *a):
        urllib.request.urlopen = self.old

    def open(self, *a, **k):
        self.n += 1
        if self.n != self.at:
            return self.old(*a, **k)
        self.hit = True
        if self.fault == "refuse":
            raise urllib.error.URLError(ConnectionRefusedError(111, "refused"))
        return Broken(self.old(*a, **k).read(), self.fault)


class Broken(io.RawIOBase):
    def __init__(self, data, fault):
        self.data, self.fault = data, fault
        self.limit = {"start": 0, "half": len(data) // 2, "ctrl-c": len(data) // 2, "end": len(data)}[fault]
        self.at = 0

    def readable(self):
        return True

    def read(self, n=-1):
        if self.at >= self.limit:
            raise KeyboardInterrupt if self.fault == "ctrl-c" else ConnectionResetError(104, "connection reset")
        end = self.limit if n is None or n < 0 else min(self.limit, self.at + n)
        out, self.at = self.data[self.at:end], end
        return out

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


def run_case(case, rec):
    kind = case[0]
    if kind == "folder":
        names = {f"{i}_{p}.mid": p for i, p in enumerate(case[1])}
        prepare(names)
        du.put("loc/readme.txt", b"x")
        du.put("loc/old.mid.bak", b"x")
        du.put("loc/noext", b"x")
        du.put("loc/sub/inner.mid", b"x")
        os.makedirs("loc/folder.mid")
        du.put("server/unlisted.mid", du.midi(POOL["big"]))
        whole(names, rec, f"{case}")
        rec.state(("folder", tuple(case[1])))
    elif kind == "odd":
        names = {f: PIECES[i % 3] for i, f in enumerate(case[1:])}
        prepare(names)
        whole(names, rec, f"{case}")
        rec.state(("odd", tuple(case[1:])))
    elif kind == "lacking":
        _, c, i = case
        names = {f"{k}_{p}.mid": p for k, p in enumerate(c)}
        prepare(names)
        missing = f"{i}_{c[i]}.mid"
        os.rename(f"server/{missing}", "kept")
        for _ in range(2):
            e, ds = raises(make)
            rec.step()
            rec.check(e is not None, "lacking", lambda: f"{case}: a piece is missing but the dataset has {len(ds)} graphs")
        os.rename("kept", f"server/{missing}")
        whole(names, rec, f"{case}")
        rec.state((kind, tuple(c), i))
    elif kind == "there":
        _, c, i = case
        names = {f"{k}_{p}.mid": p for k, p in enumerate(c)}
        prepare(names)
        f = f"{i}_{c[i]}.mid"
        du.put(f"root/raw/{f}", du.midi(POOL[c[i]]))
        os.rename(f"server/{f}", "kept")
        e, ds = raises(make)
        rec.step()
        rec.check(e is None, "there", lambda: f"{case}: {e!r}")
        os.rename("kept", f"server/{f}")
        whole(names, rec, f"{case}")
        rec.state((kind, tuple(c), i))
    elif kind == "fault":
        _, c, w = case
        names = {f"{k}_{p}.mid": p for k, p in enumerate(c)}
        prepare(names)
        for at, fault in w:
            with Server(at, fault) as s:
                try:
                    make()
                    failed = None
                except KeyboardInterrupt as e:
                    failed = e
                except Exception as e:
                    failed = e
            rec.step()
            rec.check(not s.hit or failed is not None, "unnoticed", lambda: f"{case}: the fetch failed but the dataset was made")
            rec.count("faults" if s.hit else "too_late")
        left = tree()
        whole(names, rec, f"{case} leaving {left}")
        rec.state(("fault", tuple(c), tuple(left)))
    else:
        c = case[1]
        names = {f"{k}_{p}.mid": p for k, p in enumerate(c)}
        n = 0
        while n < 300:
            prepare(names)
            ended = interrupted(n)
            rec.step()
            left = tree()
            whole(names, rec, f"{case} ended at point {n} leaving {left}")
            rec.state(("left", tuple(left)))
            rec.count("interruptions")
            if not ended:
                break
            n += 1
        rec.check(n < 300, "endless", "too many interruption points")


def tree():
    return sorted((os.path.join(d, f), os.path.getsize(os.path.join(d, f))) for d, _, fs in os.walk("root") for f in fs)


def interrupted(stop):
    def go():
        p = c51.Points(stop)
        from torch_geometric.io import fs as pfs
        old = pfs.torch_save

        def quiet(*a, **k):
            p.inside = True
            try:
                return old(*a, **k)
            finally:
                p.inside = False
        pfs.torch_save = quiet
        p.install()
        make()
    st = c51.child(go)
    if st == 77:
        return True
    if st != 0:
        raise AssertionError("run failed: " + open("child.err").read()[-1500:])
    return False
