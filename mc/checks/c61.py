"""C61: every short history of metric updates, epochs, clearing and restarts, and every interruption of an update."""
import itertools
import os
import shutil
from .. import xutil as xu
from .c51 import Points, child

PROP, LEVEL = "C61", "fault_enumeration"
TECHNIQUE = ("explicit-state model checking: exhaustive enumeration of histories of metric updates and restarts in lock step with a "
             "model, and of the interruption points (before, within and after every write) of the last update")
BOUNDS = {
    "quick": "all histories of 4 operations out of 10 (some values zero, infinite or no number) at two saving rates, with saving switched off in three ways, up to 21 reports of one kind, all pairs of reports resumed by a run with two of its own, all of 5 that end "
             "in a restart; every interruption point of the last update after all histories of 2",
    "thorough": "all histories of 5 operations at three rates, all of 6 that end in a restart; every interruption point of the last update after all histories of 3",
}
ASSUMPTIONS = ["an interruption ends the process before or after a file-system call, or with the written file half written or empty",
               "a run resumes from a checkpoint"]
KINDS = {"train": ["train_losses", "train_f1s", "train_accs", "train_recalls", "train_precisions"],
         "val": ["val_accs", "val_f1s", "val_precisions", "val_recalls"],
         "test": ["test_accs", "test_f1s", "test_precisions", "test_recalls", "test_aps", "test_aucs"]}
ALL = [n for k in KINDS.values() for n in k]
# kind and which of its values are given
OPS = [("train", 0b11111), ("train", 0b00001), ("train", 0b01010), ("val", 0b1111), ("test", 0b111111), ("test", 0b110000),
       ("test", 0b001010), ("epoch",), ("clear",), ("restart",)]
ARGS = {"train": ["loss_avg", "train_f1", "train_acc", "train_recall", "train_precision"],
        "val": ["val_acc", "val_f1", "val_precision", "val_recall"],
        "test": ["test_acc", "test_f1", "test_precision", "test_recall", "test_ap", "test_auc"]}
CALL = {"train": "update_metrics", "val": "update_val_metric", "test": "update_test_metric"}
N = len(OPS)


def setup():
    xu.load()


def cases(tier):
    th = tier == "thorough"
    for rate in (1, 2, 3) if th else (1, 2):
        for pre in itertools.product(range(N), repeat=2):
            yield ["history", rate, True, 5 if th else 4, list(pre)]
    for pre in itertools.product(range(N), repeat=2):
        yield ["resume", 1, True, 6 if th else 5, list(pre)]
    for rate, save in ((1, False), (0, True), (None, True)):
        for pre in range(N):
            yield ["history", rate, save, 3, [pre]]
    for k in range(7):
        for n in (5, 8, 13, 21):
            yield ["many", k, n]
    for w in itertools.product(range(7), repeat=3 if th else 2):
        for own in itertools.product(range(7), repeat=2):
            yield ["again", list(w), list(own)]
    for pre in itertools.product(range(N), repeat=2):
        for last in range(7):
            yield ["crash", 3 if th else 2, list(pre), last]


class Run:
    """the real run and its model in lock step"""

    def __init__(self, rate, save):
        for d in ("ck", "metric"):
            if os.path.isdir(d):
                shutil.rmtree(d)
        self.rate, self.save, self.disk, self.n = rate, save, {}, 0
        other = xu.fresh("GCN_v2")         # another model with metrics of its own
        other.update_metrics(-1.0, -2.0, -3.0, -4.0, -5.0)
        other.update_val_metric(-1.0, -2.0, -3.0, -4.0)
        other.update_test_metric(-1.0, -2.0, -3.0, -4.0, -5.0, -6.0)
        self.start()
        self.real.save_checkpoint(3, self.real.optimizer.state_dict(), output_dir="ck", model_name="GCN")

    def start(self):
        self.real = xu.fresh("GCN")
        self.real.metrics_rate, self.real.save_metrics = self.rate, self.save
        self.model = {k: [] for k in ALL}
        self.epoch = 0

    def values(self, kind, mask):
        self.n += 1
        odd = {0: 0.0, 4: 0.0, 6: float("nan"), 8: 0.0, 9: -float("inf"), 11: float("inf")}
        return [odd.get((self.n + i) % 12, self.n + i / 16) if mask >> i & 1 else None for i in range(len(KINDS[kind]))]

    def writes(self):
        return bool(self.save and self.rate and self.epoch % self.rate == 0)

    def do(self, k, keyword):
        op = OPS[k]
        if op[0] == "epoch":
            self.epoch += 1
            self.real.current_epoch += 1
        elif op[0] == "clear":
            self.real.clear_metric()
            self.model = {k: [] for k in ALL}
        elif op[0] == "restart":
            self.start()
            self.real.load_checkpoint("GCN", "ck")
            self.epoch = 4
            if self.save:
                for snap in self.disk.values():
                    self.model.update({k: list(v) for k, v in snap.items()})
        else:
            kind = op[0]
            vs = self.values(kind, op[1])
            fn = getattr(self.real, CALL[kind])
            if keyword:
                fn(**{a: v for a, v in zip(ARGS[kind], vs) if v is not None or a == "loss_avg"})
            else:
                fn(*vs)
            self.record(kind, vs)

    def record(self, kind, vs):
        for n, v in zip(KINDS[kind], vs):
            if v is not None:
                self.model[n].append(v)
        if self.writes():
            self.disk[kind] = {n: list(self.model[n]) for n in KINDS[kind]}

    def compare(self, rec, ctx):
        rec.step()
        got = {n: list(getattr(self.real, n)) for n in ALL}
        for n in ALL:
            rec.eq(repr(got[n]), repr(self.model[n]), n, ctx)
        rec.eq(self.real.current_epoch, self.epoch, "epoch", ctx)


def names(w):
    return " ".join("-".join(map(str, OPS[k])) for k in w)


def run_case(case, rec):
    if case[0] in ("history", "resume"):
        _, rate, save, depth, pre = case
        tails = itertools.product(range(N), repeat=depth - len(pre))
        if case[0] == "resume":
            tails = (t + (9,) for t in itertools.product(range(N), repeat=depth - len(pre) - 1))
        for tail in tails:
            w = pre + list(tail)
            r = Run(rate, save)
            for i, k in enumerate(w):
                r.do(k, (k + i) % 2 == 0)
                r.compare(rec, f"{names(w[:i + 1])} (saving {save} every {rate})")
            if not save or not rate:
                rec.check(not [f for f in os.listdir("metric") if f.startswith("GCN_t") or f.startswith("GCN_val")], "written", lambda: f"{names(w)}: {os.listdir('metric')}")
            r.do(9, False)
            r.compare(rec, f"{names(w)}, then restarted (saving {save} every {rate})")
            rec.state((rate, save, repr(sorted((k, len(v)) for k, v in r.model.items() if v))))
            rec.outcome(repr(sorted(len(v) for v in r.model.values())))
    elif case[0] == "many":
        _, k, n = case
        r = Run(1, True)
        for i in range(n):
            r.do(k, i % 2 == 0)
        r.compare(rec, f"{names([k])} {n} times")
        r.do(9, False)
        r.compare(rec, f"{names([k])} {n} times, then restarted")
        rec.state(("many", k, n))
    elif case[0] == "again":
        # a run that has reports of its own (not saved) resumes: what was saved replaces them
        _, w, own = case
        r = Run(1, True)
        for k in w:
            r.do(k, False)
        r.start()
        r.real.save_metrics = r.save = False
        for k in own:
            r.do(k, False)
        r.real.save_metrics = r.save = True
        r.real.load_checkpoint("GCN", "ck")
        rec.step()
        for snap in r.disk.values():
            for n, v in snap.items():
                rec.eq(repr(list(getattr(r.real, n))), repr(v), n, f"{names(w)} saved, {names(own)} of a run that resumes then")
        rec.state(("again", repr(sorted(r.disk)), tuple(own)))
    else:
        _, depth, pre, last = case
        for tail in itertools.product(range(N), repeat=depth - len(pre)):
            crash(pre + list(tail), last, rec)


def crash(w, last, rec):
    for stop in range(60):
        r = Run(1, True)
        for i, k in enumerate(w):
            r.do(k, False)
        kind, mask = OPS[last]

        def go():
            Points(stop).install()
            r.do(last, False)
        st = child(go)
        if st not in (0, 77):
            raise AssertionError("update failed: " + open("child.err").read()[-1500:])
        ctx = f"{names(w)}, stopped at point {stop} of {OPS[last]}"
        before = {k: dict(v) for k, v in r.disk.items()}
        r.record(kind, r.values(kind, mask))
        after = r.disk
        real = xu.fresh("GCN")
        try:
            real.load_checkpoint("GCN", "ck")
        except Exception as e:
            rec.fail("unreadable", f"{ctx}: {type(e).__name__}: {e}, left {sorted(os.listdir('metric'))}")
        got = {n: list(getattr(real, n)) for n in ALL}
        want = []
        for disk in ((before, after) if st else (after,)):
            m = {n: [] for n in ALL}
            for s in disk.values():
                m.update(s)
            want.append(m)
        rec.step()
        rec.check(repr(got) in [repr(w) for w in want], "neither", lambda: f"{ctx}: resumed with {got}, either of {want}")
        rec.count("interruptions")
        rec.state(("crash", last, repr(sorted((k, len(v)) for k, v in got.items() if v))))
        if st == 0:
            break
