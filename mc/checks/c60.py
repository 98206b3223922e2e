"""C60: every short history of checkpoints, interrupted at every point of its last save, then resumed."""
import itertools
import os
import shutil
from .. import xutil as xu
from .c51 import Points, child

PROP, LEVEL = "C60", "fault_enumeration"
TECHNIQUE = ("explicit-state model checking: exhaustive enumeration of histories of saved checkpoints and of the interruption "
             "points (before, within and after every write) of the last save, each resumed by a fresh process state and compared with a model of the folder")
BOUNDS = {
    "quick": "all histories of up to 3 saves of 2 models at 5 epochs (1110); all orders of up to 3 of 4 epochs around each power of ten up to 10^8; runs of 14 saves in steps of 1, 3 or 10 in four orders, resumed after each; models of 10 names; every interruption point of the last save of all histories "
             "of up to 2 saves, the save then repeated",
    "thorough": "all histories of up to 4 saves; runs of 24 saves; every interruption point of the last save of all histories of up to 3 saves",
}
ASSUMPTIONS = ["an interruption ends the process before or after a file-system call, or with the written file half written or empty"]
EPOCHS = [0, 2, 9, 10, 100]
MODELS = ["GCN", "GCN_v2"]
OPS = list(itertools.product(MODELS, EPOCHS))


def setup():
    xu.load()


def cases(tier):
    n = 4 if tier == "thorough" else 3
    yield ["none"]
    for k in range(1, n + 1):
        for pre in itertools.product(range(len(OPS)), repeat=min(k, 2) if k > 1 else 1):
            yield ["history", k, list(pre)]
    for k in range(1, n):
        for pre in itertools.product(range(len(OPS)), repeat=min(k, 2)):
            yield ["crash", k, list(pre)]
    for name in ("GCN", "GCN[1]", "a b", "model.v1", "x*", "GCN_9", "9", "é", "a/GCN", "GCN/a"):
        yield ["name", name]
    for d in range(1, 9):
        yield ["digits", d]
    for first in (0, 1, 5, 95):
        for by in (1, 3, 10):
            for way in range(4):
                yield ["long", first, by, way, 24 if tier == "thorough" else 14]


NETS = {}


def state(seed):
    if seed not in NETS:
        m, o = xu.network(seed, steps=1 + seed % 3)
        NETS[seed] = (m, o, xu.plain(m.state_dict()), xu.plain(o.state_dict()))
    return NETS[seed]


def save(name, epoch, seed):
    e = xu.fresh(name)
    e.model, e.optimizer = state(seed)[:2]
    e.save_checkpoint(epoch, e.optimizer.state_dict(), output_dir="ck", model_name=name)


def resume(rec, name, folder, ctx):
    """what a new run finds: (epoch, seed) or None"""
    e = xu.fresh(name, seed=555)
    e.load_checkpoint(name, "ck")
    rec.step()
    m, o = xu.plain(e.model.state_dict()), xu.plain(e.optimizer.state_dict())
    want = max(folder.items()) if folder else None
    if want is None:
        m0, o0 = xu.network(555, steps=0)
        rec.check(m == xu.plain(m0.state_dict()) and o == xu.plain(o0.state_dict()), "changed-by-nothing", lambda: f"{ctx}: {m}")
        rec.eq((e.start_epoch, e.current_epoch), (0, 0), "start", ctx)
        return
    epoch, seed = want
    rec.eq((e.start_epoch, e.current_epoch), (epoch + 1, epoch + 1), "epoch", f"{ctx}: saved {folder}")
    rec.check(m == state(seed)[2], "model", lambda: f"{ctx}: saved {folder}, got {m}")
    rec.check(o == state(seed)[3], "optimizer", lambda: f"{ctx}: saved {folder}, got {o}")


def seed_of(word, i):
    return 1 + word[i] * 4 + i


def play(word):
    """the folder after the saves: name -> epoch -> seed"""
    if os.path.isdir("ck"):
        shutil.rmtree("ck")
    folder = {m: {} for m in MODELS}
    for i, k in enumerate(word):
        name, epoch = OPS[k]
        save(name, epoch, seed_of(word, i))
        folder[name][epoch] = seed_of(word, i)
    return folder


def run_case(case, rec):
    if os.path.isdir("ck"):
        shutil.rmtree("ck")
    if case[0] == "none":
        for _ in range(2):
            for m in MODELS + [""]:
                resume(rec, m, {}, "nothing saved")
    elif case[0] == "name":
        n = case[1]
        save(n, 3, 31)
        for i, other in enumerate(("GCN1", "a")):
            save(other, 4 + i, 34 + i)
        save(n, 2, 33)
        resume(rec, n, {3: 31, 2: 33}, f"model named {n!r}")
        rec.state(("name", n))
    elif case[0] == "digits":
        near = sorted({10 ** case[1] - 1, 10 ** case[1], 2 * 10 ** (case[1] - 1), 10 ** case[1] + 5})
        for k in (1, 2, 3):
            for word in itertools.permutations(near, k):
                if os.path.isdir("ck"):
                    shutil.rmtree("ck")
                for i, n in enumerate(word):
                    save("GCN", n, 41 + i)
                resume(rec, "GCN", {n: 41 + i for i, n in enumerate(word)}, f"epochs {word}")
                rec.state(("digits", word))
    elif case[0] == "long":
        # a long run, resumed after every save: in order, last first, newest first of all, two models in turns
        _, first, by, way, n = case
        es = [first + by * i for i in range(n)]
        es = [es, es[::-1], es[-1:] + es[:-1], es][way]
        folder = {m: {} for m in MODELS}
        for i, e in enumerate(es):
            name = MODELS[way == 3 and i % 2]
            save(name, e, 1 + i % 7)
            folder[name][e] = 1 + i % 7
            for m in MODELS:
                resume(rec, m, folder[m], f"{m} of {case} after {i + 1} saves")
        rec.state(tuple(case))
    elif case[0] == "history":
        _, k, pre = case
        for tail in itertools.product(range(len(OPS)), repeat=k - len(pre)):
            word = pre + list(tail)
            folder = play(word)
            for m in MODELS + ["GC"]:
                resume(rec, m, folder.get(m, {}), f"after {[OPS[i] for i in word]}")
            rec.state(repr(sorted((m, sorted(f)) for m, f in folder.items())))
            rec.outcome(repr({m: max(f) for m, f in folder.items() if f}))
    else:
        _, k, pre = case
        for tail in itertools.product(range(len(OPS)), repeat=k - len(pre)):
            crash(pre + list(tail), rec)


def crash(word, rec):
    name, epoch = OPS[word[-1]]
    seed = seed_of(word, len(word) - 1)
    for stop in range(60):
        folder = play(word[:-1])

        def go():
            Points(stop).install()
            save(name, epoch, seed)
        st = child(go)
        if st not in (0, 77):
            raise AssertionError("save failed: " + open("child.err").read()[-1500:])
        ctx = f"{[OPS[i] for i in word]} stopped at point {stop} of the last save"
        before, after = dict(folder[name]), dict(folder[name])
        after[epoch] = seed
        found = None
        for f in ((after,) if st == 0 else (before, after)):
            probe = xu.fresh(name, seed=555)
            try:
                probe.load_checkpoint(name, "ck")
            except Exception as e:
                rec.fail("unreadable", f"{ctx}: {type(e).__name__}: {e}, left {sorted(os.listdir(os.path.join('ck', name)))}")
            e0, s0 = max(f.items()) if f else (-1, None)
            w = xu.plain((xu.network(555, steps=0)[0] if s0 is None else state(s0)[0]).state_dict())
            if probe.start_epoch == e0 + 1 and xu.plain(probe.model.state_dict()) == w:
                found = f
                break
        rec.check(found is not None, "neither", lambda: f"{ctx}: resumed at {probe.start_epoch}, saved before {before}, being saved {epoch}")
        resume(rec, name, found, ctx)
        for m in MODELS:
            if m != name:
                resume(rec, m, folder[m], ctx + ", other model")
        save(name, epoch, seed)
        resume(rec, name, after, ctx + ", saved again")
        rec.count("interruptions")
        rec.state(("crash", repr(sorted(before)), epoch, repr(sorted(found))))
        if st == 0:
            break
