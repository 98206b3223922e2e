"""C51: small corpora through the real dataset, reloaded, and interrupted at every write."""
import itertools
import os
import shutil
from .. import dutil as du

PROP, LEVEL = "C51", "fault_enumeration"
TECHNIQUE = "explicit-state model checking: exhaustive enumeration of small corpora, configurations and interruption points (before, within and after every write), with the repeated run compared to an uninterrupted one"
BOUNDS = {
    "quick": "all corpora of 1..2 files over 8 files (and all of 3 over 4) in two configurations, 12 configurations on fixed corpora and all pairs of their settings on one, 6 ways to name the files, a transform and 4 filters that drop graphs among others; every interruption point of 11 runs, and every pair of interruption points of 2 runs",
    "thorough": "all corpora of 1..3 files over 8 files in two configurations, 36 configurations on fixed corpora and all pairs of settings on one; every interruption point of 15 runs, every pair of 4 runs and every triple of 1",
}
ASSUMPTIONS = ["an interruption ends the process before or after a file-system call, or with any written file half written or empty",
               "the building of a file's graphs is checked by C01, C02 and C07", "the corpus holds something that sounds"]
H = lambda *ps: (tuple(ps), 60)
POOL = {
    "two": [(0, 0, [H(60), H(64, 67), H(60)]), (1, 5, [H(40), H(41), H(40), H(43)])],
    "one": [(0, 0, [H(60), H(62), H(64), H(62)])],
    "drums": [(9, 0, [H(36), H(38), H(36)])],
    "nothing": [],
    "single": [(0, 3, [H(70)]), (1, 4, [H(50, 53), H(52), H(50, 53)])],
    "big": [(0, 0, [H(*range(50, 64)), H(60), H(61)])],
    "mixed": [(9, 0, [H(36), H(38)]), (2, 9, [H(64, 67), H(60), H(64, 67), H(60)])],
    "twin": [(0, 0, [H(60), H(62), H(64)]), (1, 0, [H(64), H(62), H(60)])],
}
NAMES = list(POOL)
# graphs of 3, 2, 3 and 4 nodes
POOL["many"] = [(0, 0, [H(60), H(62), H(64), H(60)]), (1, 5, [H(40), H(41), H(40)]), (2, 9, [H(50), H(51), H(52)]), (3, 12, [H(70), H(71), H(72), H(73)])]
# one node, whichever way it is built
POOL["lone"] = [(0, 2, [H(65)])]
CONF = [dict(), dict(include_velocity=True, feature_vec_size=4), dict(filter_single_notes=True), dict(tolerance=0.05), dict(feature_vec_size=1),
        dict(feature_vec_size=128), dict(include_velocity=True, velocity_num_buckets=2), dict(do_split_mask=False), dict(remove_label=False),
        dict(do_sanity_check=True), dict(train_ratio=0.0, val_ratio=0.0), dict(tolerance=0.9)]
CONF_T = [dict(a, **b) for a in CONF[:6] for b in (dict(), dict(include_velocity=True), dict(filter_single_notes=True), dict(remove_label=False, do_sanity_check=True),
                                                   dict(per_graph_slit=False), dict(velocity_num_buckets=3))]

PAIRS = [dict(a, **b) for a, b in itertools.combinations([c for c in CONF if c], 2) if not set(a) & set(b)]
ALL = CONF + PAIRS


def setup():
    du.load()


def cases(tier):
    th = tier == "thorough"
    for n in (1, 2, 3):
        for c in itertools.product(NAMES if (n < 3 or th) else ["two", "drums", "nothing", "twin"], repeat=n):
            if all(x in ("drums", "nothing") for x in c):
                continue
            for k in (0, 1):
                yield ["content", list(c), k, "abs"]
    for k in range(len(CONF_T) if th else len(CONF)):
        for c in (["two", "single"], ["mixed", "big", "drums"], ["nothing", "two"]):
            yield ["conf" if th else "content", c, k, "abs"]
    for k in range(len(CONF), len(ALL)):
        yield ["content", ["single", "mixed", "big"], k, "abs"]
    for way in ("rel", "clash", "bare", "raw", "listed", "filter", "pre"):
        for c in (["two"], ["two", "one"], ["one", "two", "single"], ["drums", "one", "twin"]):
            yield ["content", c, 0, way]
    for c in (["lone", "one"], ["two", "lone"], ["lone", "single", "lone", "many"], ["lone", "two", "lone"]):
        for way in ("large", "abs"):
            yield ["content", c, 0, way]
    for c in itertools.product(("two", "one", "lone"), repeat=2):
        yield ["content", list(c), 0, "case"]
    for way in ("filter", "odd", "small"):
        for c in itertools.product(("many", "two", "one"), repeat=2):
            yield ["content", list(c), 0, way]
        yield ["content", ["two", "many", "drums", "one"], 0, way]
    for c in (["two"], ["two", "one"], ["drums", "one"]) if not th else (["two"], ["two", "one"], ["drums", "one"], ["nothing", "big", "one"]):
        for way in ("abs", "rel", "bare", "clash"):
            if way == "clash" and len(c) == 1:
                continue
            yield ["crash", c, way, 1]
    for c, way in ((["one"], "bare"), (["two"], "abs")) if not th else ((["one"], "rel"), (["two"], "abs"), (["two", "one"], "clash"), (["drums", "one"], "bare")):
        for first in range(16 if not th else 24):
            yield ["crash2", c, way, first]
    if th:
        for first in range(12):
            for second in range(12):
                yield ["crash3", ["one"], "abs", first, second]


def files_for(c, way):
    """the files as the caller names them; a fresh folder each time"""
    for d in ("src", "root", "loc"):
        if os.path.isdir(d):
            shutil.rmtree(d)
    os.makedirs("loc")
    data = {n: du.midi(POOL[n]) for n in set(c)}
    if way in KEEP or way in ("abs", "pre"):
        return [os.path.abspath(du.put(f"src/{n}.mid", data[n])) for n in c]
    if way == "rel":
        return [du.put(f"src/{n}.mid", data[n]) for n in c]
    if way == "bare":
        return [du.put(f"{n}.mid", data[n]) for n in c]
    if way == "clash":                     # all files have one name, in folders of their own
        return [du.put(f"src/d{i}/song.mid", data[n]) for i, n in enumerate(c)]
    if way == "case":                      # folders that differ in the case of a letter only
        return [du.put(f"src/{'dD'[i]}/song.mid", data[n]) for i, n in enumerate(c)]
    for i, n in enumerate(c):
        du.put(f"root/raw/{i}_{n}.mid", data[n])
        du.put(f"loc/{i}_{n}.mid", data[n])
    if way == "raw":
        return [f"{i}_{n}.mid" for i, n in enumerate(c)]
    du.put("loc/readme.txt", b"x")
    return None                            # the files are those of the default location


# which graphs a filter keeps, by their number of nodes
KEEP = {"filter": lambda n: n % 2 == 0, "odd": lambda n: n % 2 == 1, "small": lambda n: n < 4, "large": lambda n: n > 1}


def mark(g):
    g.marked = g.x.shape[0]
    return g


def extra(way):
    if way in KEEP:
        return dict(pre_filter=lambda g: KEEP[way](g.x.shape[0]))
    return {"pre": dict(pre_transform=mark)}.get(way, {})


def expected(c, kw, per):
    opts = {k: v for k, v in kw.items() if k in ("feature_vec_size", "velocity_num_buckets", "tolerance", "filter_single_notes", "include_velocity")}
    out = []
    for n in c:
        out.append(du.direct(du.put(f"direct/{n}.mid", du.midi(POOL[n])), per, **opts))
    return out


def content(ds, way):
    t = ds.hash_to_notes
    return [du.graph(ds[i], t) for i in range(len(ds))]


def compare(ds, c, kw, per, way, rec, ctx):
    got = content(ds, way)
    want = [g for f in expected(c, kw, per) for g in f]
    if way in KEEP:
        want = [g for g in want if KEEP[way](len(g[0]))]
    if way == "pre":
        rec.check(all(int(ds[i].marked) == len(g[0]) for i, g in enumerate(got)), "pre-transform", lambda: f"{ctx}")
    if way == "listed":
        got, want = sorted(got), sorted(want)
    rec.eq(len(got), len(want), "graph-count", ctx)
    for i, (a, b) in enumerate(zip(got, want)):
        rec.check(a == b, "graph", lambda: f"{ctx}: graph {i} is {a}, built directly it is {b}")
    rec.state((per, tuple(want), repr(kw)))
    rec.outcome(tuple(want))
    return got


def stored(ds):
    """everything the dataset hands out, apart from the random masks"""
    out = []
    for i in range(len(ds)):
        g = ds[i]
        out.append((du.graph(g, ds.hash_to_notes), g.y.tolist(), g.node_hash, {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in g.to_dict().items()}))
    return out, ds.hash_to_notes, ds.notes_to_hash, ds.hash_to_index, ds.index_to_hash, ds.total_num_classes


def run_case(case, rec):
    if case[0] in ("content", "conf"):
        _, c, k, way = case
        kw = (CONF_T if case[0] == "conf" else ALL)[k]
        for order in ((True, False), (False, True)):
            fs = files_for(c, way)
            given = None if fs is None else list(fs)
            seen = {}
            for per in order:
                want = [g for f in expected(c, kw, per) for g in f if way not in KEEP or KEEP[way](len(g[0]))]
                other = [g for f in expected(c, kw, not per) for g in f if way not in KEEP or KEEP[way](len(g[0]))]
                if not want or not other:
                    return                 # nothing to store in one of the layouts
                ds = du.dataset(fs, "root", per, **kw, **extra(way))
                rec.eq(fs, given, "list-changed", f"{case}")
                compare(ds, c, kw, per, way, rec, f"{case} per_instrument={per}")
                seen[per] = stored(ds)
                rec.step()
            # again, without any file to process
            names = sorted(os.listdir("root/processed"))
            stamp = {n: os.stat(f"root/processed/{n}").st_mtime_ns for n in names}
            calls = []
            old = du.MidiReader.read
            du.MidiReader.read = staticmethod(lambda *a, **k: calls.append(a) or old(*a, **k))
            try:
                for per in (False, True):
                    ds = du.dataset(fs, "root", per, **kw, **extra(way))
                    rec.check(stored(ds) == seen[per], "reload-differs", lambda: f"{case} per_instrument={per}: not what was processed")
                    rec.step()
            finally:
                du.MidiReader.read = old
            rec.check(not calls, "reprocessed", lambda: f"{case}: reloading read {calls}")
            rec.eq({n: os.stat(f"root/processed/{n}").st_mtime_ns for n in names}, stamp, "rewritten", f"{case}")
    else:
        crash_case(case, rec)


# ------------------------------------------------------------------ interruptions
FS_CALLS = ("rename", "replace", "remove", "unlink", "mkdir", "rmdir", "link", "symlink", "truncate")


class Points:
    """Counts interruption points; at the chosen one the process ends at once.

    Points lie before and after every call that changes the file system, and,
    for writes of content (torch.save, copies, files opened for writing), with
    the file empty and with half of the content in it."""

    def __init__(self, stop):
        self.n, self.stop, self.where = 0, stop, None

    def point(self, what, half=None):
        if self.n == self.stop:
            if half:
                half()
            os.write(2, f"stop at {what}\n".encode())
            os._exit(77)
        self.n += 1

    def install(self):
        import builtins
        import io
        torch, me = du.torch, self
        me.inside = False

        def guard(fn, what, half=None):
            def w(*a, **k):
                if me.inside:
                    return fn(*a, **k)
                me.point(what + " before")
                if half:
                    me.point(what + " empty", lambda: half(0, *a, **k))
                    me.point(what + " half", lambda: half(1, *a, **k))
                me.inside = True
                try:
                    r = fn(*a, **k)
                finally:
                    me.inside = False
                me.point(what + " after")
                return r
            return w

        def partial(data, part, f):
            cut = data[:len(data) // 2] if part else b""
            if isinstance(f, (str, os.PathLike)):
                with open(f, "wb") as out:
                    out.write(cut)
            else:
                f.write(cut)
                f.flush()

        def half_save(part, obj, f, *a, **k):
            me.inside = True
            b = io.BytesIO()
            old_save(obj, b)
            partial(b.getvalue(), part, f)

        def half_copy(part, src, dst, *a, **k):
            me.inside = True
            if os.path.isdir(dst):
                dst = os.path.join(dst, os.path.basename(src))
            with open(src, "rb") as i:
                partial(i.read(), part, dst)
        old_save = torch.save
        torch.save = guard(old_save, "save", half_save)
        for n in ("copy", "copyfile", "copy2", "move"):
            setattr(shutil, n, guard(getattr(shutil, n), n, half_copy))
        for n in FS_CALLS:
            if hasattr(os, n):
                setattr(os, n, guard(getattr(os, n), n))


def child(fn):
    """run fn in a process of its own; its exit status"""
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            fn()
            code = 0
        except SystemExit as e:
            code = e.code
        except BaseException:
            import traceback
            with open("child.err", "w") as f:
                f.write(traceback.format_exc())
            code = 98
        finally:
            os._exit(code)
    return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])


def interrupted(c, way, stop):
    """run with an interruption at the given point; False if the run ended before it"""
    def go():
        p = Points(stop)
        # the library's own bookkeeping after processing is not the dataset's
        du.md.InMemoryDataset  # noqa
        from torch_geometric.io import fs as pfs
        old = pfs.torch_save

        def quiet(*a, **k):
            p.inside = True
            try:
                return old(*a, **k)
            finally:
                p.inside = False
        pfs.torch_save = quiet
        p.install()
        du.dataset(names(c, way), "root", True)
    st = child(go)
    if st == 77:
        return True
    if st != 0:
        raise AssertionError("run failed: " + open("child.err").read()[-1500:])
    return False


def names(c, way):
    if way == "abs":
        return [os.path.abspath(f"src/{n}.mid") for n in c]
    if way == "bare":
        return [f"{n}.mid" for n in c]
    if way == "rel":
        return [f"src/{n}.mid" for n in c]
    return [f"src/d{i}/song.mid" for i, n in enumerate(c)]


def crash_case(case, rec):
    kind, c, way = case[:3]
    fixed = list(case[3:]) if kind != "crash" else []
    n = 0
    while n < 400:
        files_for(c, way)
        stops = fixed + [n]
        for i, s in enumerate(stops):
            rec.step()
            if not interrupted(c, way, s):
                stops = None               # there is no such point any more
                break
        state = tree()
        for per in (True, False):
            ds = du.dataset(names(c, way), "root", per)
            compare(ds, c, {}, per, way, rec, f"{case} interrupted at {fixed + [n]} leaving {state}, then repeated, per_instrument={per}")
        rec.state(("left", tuple(state)))
        rec.count("interruptions")
        if stops is None:
            break
        n += 1
    rec.check(n < 400, "endless", "too many interruption points")


def tree():
    out = []
    for d, ds, fs in os.walk("root"):
        for f in fs:
            out.append((os.path.join(d, f), os.path.getsize(os.path.join(d, f))))
    return sorted(out)
