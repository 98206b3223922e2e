"""Small model-checking driver: bounded exhaustive exploration of the real code.

A check module (mc/checks/cNN.py) defines

    PROP, TITLE, LEVEL, BOUNDS (dict tier -> text), ASSUMPTIONS (list of text)
    cases(tier)            deterministic generator of JSON-able cases, simplest first
    run_case(case, rec)    drives the real code through the case in lock step with
                           the reference model; rec.fail(...) on any disagreement
    setup()                optional, imports what the cases need (before forking)

Every case is a complete history / input / schedule.  The driver enumerates ALL
cases (striped over forked workers), so nothing is sampled.  Whatever escapes from
run_case as an exception is a disagreement too (the model never raises).
"""
import hashlib
import json
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_SECONDS = 60          # a case that makes no progress for so long hangs
MAX_FAIL_PER_WORKER = 5


class Hang(BaseException):
    pass


class Disagree(Exception):
    """raised by rec.fail to leave the case"""


def h64(obj) -> int:
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class Rec:
    """What one worker saw."""

    def __init__(self, known, strict=False):
        self.known = known            # key -> description
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.nontrivial = 0
        self.samples = []
        self.fails = []               # (key, msg, case)
        self.hits = {}                # known key -> count
        self.case = None
        self.strict = strict
        self.extra = {}

    # -- coverage
    def state(self, s):
        self.states.add(h64(s))

    def outcome(self, s):
        """an observed result of a whole history (to show that executions differ)"""
        self.outcomes.add(h64(s))

    def step(self, n=1):
        self.transitions += n

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    # -- verdicts
    def fail(self, key, msg, stop=True):
        if key in self.known and not self.strict:
            self.hits[key] = self.hits.get(key, 0) + 1
            if stop:
                raise Disagree(key)
            return
        self.fails.append((key, str(msg)[:2000], self.case))
        if stop:
            raise Disagree(key)

    def check(self, cond, key, msg="", stop=True):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg, stop)

    def eq(self, got, want, key, ctx=""):
        if got != want:
            self.fail(key, f"{ctx}: got {got!r}, expected {want!r}")


def raises(fn, *a, **k):
    """Run fn; (exception or None, value)."""
    try:
        return None, fn(*a, **k)
    except Hang:
        raise
    except MemoryError:
        raise
    except Exception as e:
        return e, None


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    out = {}
    if os.path.exists(p):
        for e in json.load(open(p))["entries"]:
            if e["property"] == prop and e.get("status", "finding") == "finding":
                out[e["key"]] = e["what"]
    return out


def _alarm(sig, frm):
    raise Hang()


def run_one(mod, case, rec):
    rec.case = case
    limit = getattr(mod, "CASE_SECONDS", CASE_SECONDS)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.run_case(case, rec)
        rec.traces += 1
    except Disagree:
        rec.traces += 1
    except Hang:
        rec.fails.append(("hang", f"no result within {limit}s", case))
    except MemoryError:
        rec.fails.append(("memory", "memory exhausted", case))
    except Exception:
        tb = traceback.format_exc(limit=-6)
        try:
            rec.fail("exception", tb)
        except Disagree:
            pass
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _drop_privileges(scratch):
    """Exploration runs as an unprivileged user confined to its scratch directory."""
    if os.geteuid() != 0:
        return
    pid = os.fork()
    if pid == 0:  # probe: can nobody still read the code under test?
        ok = 1
        try:
            os.chown(scratch, 65534, 65534)
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
            open(os.path.join(REPO, "neural_graph_composer", "midi_reader.py")).read(1)
            os.listdir(os.path.dirname(os.__file__))
            open(os.path.join(scratch, ".probe"), "w").close()
            os.unlink(os.path.join(scratch, ".probe"))
            import torch.version  # noqa  (the venv is readable)
            ok = 0
        except BaseException:
            ok = 1
        os._exit(ok)
    _, st = os.waitpid(pid, 0)
    if st != 0:
        return
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)


def worker(mod, tier, w, nw, seed, known, outpath, scratch, quiet=True):
    if quiet:
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    os.chdir(scratch)
    os.environ["TMPDIR"] = scratch
    os.environ["HOME"] = scratch
    tempfile.tempdir = scratch
    fd = os.open(outpath, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    _drop_privileges(scratch)
    try:
        vm = int(open("/proc/self/statm").read().split()[0]) * 4096
        resource.setrlimit(resource.RLIMIT_AS, (vm + (3 << 30),) * 2)
    except Exception:
        pass
    signal.signal(signal.SIGALRM, _alarm)
    rec = Rec(known)
    n = 0
    first = last = None
    for i, case in enumerate(mod.cases(tier)):
        n += 1
        if (i + seed) % nw != w:
            continue
        if first is None:
            first = case
        last = case
        run_one(mod, case, rec)
        if len(rec.fails) >= MAX_FAIL_PER_WORKER:
            break
    else:
        rec.extra["_complete"] = 1
    if first is not None:
        rec.samples = [first, last]
    blob = pickle.dumps(dict(states=rec.states, outcomes=rec.outcomes, transitions=rec.transitions,
                             traces=rec.traces, samples=rec.samples, fails=rec.fails,
                             hits=rec.hits, extra=rec.extra, n=n))
    with os.fdopen(fd, "wb") as f:
        f.write(blob)


def run_check(mod, tier, seed, nworkers=8):
    """Returns exit status."""
    t0 = time.time()
    prop = mod.PROP
    known = load_known(prop)
    base = tempfile.mkdtemp(prefix=f"mc_{prop}_")
    os.chmod(base, 0o755)
    try:
        try:
            if hasattr(mod, "setup"):
                dn = os.open(os.devnull, os.O_RDWR)
                s1, s2 = os.dup(1), os.dup(2)
                sys.stdout.flush()
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                try:
                    mod.setup()
                finally:
                    sys.stdout.flush()
                    os.dup2(s1, 1)
                    os.dup2(s2, 2)
        except Exception:
            # the code under test cannot even be loaded/prepared
            return finish(mod, prop, tier, seed, t0, [],
                          [("setup", traceback.format_exc(limit=-6), None)], known, base, nworkers)
        pids = {}
        for w in range(nworkers):
            sc = os.path.join(base, f"w{w}")
            os.mkdir(sc)
            if os.geteuid() == 0:
                try:
                    os.chown(sc, 65534, 65534)
                except OSError:
                    pass
            out = os.path.join(base, f"out{w}")
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    worker(mod, tier, w, nworkers, seed, known, out, sc)
                    code = 0
                except BaseException:
                    try:
                        with open(os.path.join(sc, "err"), "w") as f:
                            f.write(traceback.format_exc())
                    except BaseException:
                        pass
                finally:
                    os._exit(code)
            pids[pid] = w
        results, crashes = [], []
        while pids:
            pid, st = os.wait()
            w = pids.pop(pid, None)
            if w is None:
                continue
            out = os.path.join(base, f"out{w}")
            if st == 0:
                results.append(pickle.load(open(out, "rb")))
            else:
                err = os.path.join(base, f"w{w}", "err")
                txt = open(err).read() if os.path.exists(err) else ""
                crashes.append((w, st, txt))
        if crashes:
            for w, st, txt in crashes:
                if os.WIFSIGNALED(st):
                    # the code under test took the process down
                    results.append(dict(fails=[("process-death", f"worker {w} died, status {st}", None)]))
                else:
                    print(f"ERROR: worker {w} of {prop} failed\n{txt}")
                    return 2
        fails = [f for r in results for f in r.get("fails", [])]
        return finish(mod, prop, tier, seed, t0, [r for r in results if "states" in r], fails, known, base, nworkers)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def finish(mod, prop, tier, seed, t0, results, fails, known, base, nworkers):
    states, outcomes = set(), set()
    tr = ntr = 0
    samples, hits, extra, total = [], {}, {}, 0
    for r in results:
        states |= r["states"]
        outcomes |= r["outcomes"]
        tr += r["transitions"]
        ntr += r["traces"]
        samples += r["samples"]
        total = max(total, r["n"])
        for k, v in r["hits"].items():
            hits[k] = hits.get(k, 0) + v
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v
    complete = extra.pop("_complete", 0) == nworkers
    fails.sort(key=lambda f: (len(json.dumps(f[2])), f[0]))
    cov = dict(states=len(states), transitions=tr, traces_validated_against_impl=ntr,
               samples=sorted(samples, key=lambda c: len(json.dumps(c)))[:6], exhaustive=complete and ntr == total,
               distinct_observed_outcomes=len(outcomes),
               bounds=mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
               counters=extra, known_findings_reproduced=hits)
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2),
              violations=len(fails))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(hits):
        print(f"KNOWN-FINDING: property={prop} {known[k]} [{hits[k]} histories]")
    print(f"{prop} [{tier}] states={len(states)} transitions={tr} histories={ntr}/{total} "
          f"outcomes={len(outcomes)} exhaustive={cov['exhaustive']} wall={ev['wall_s']}s {extra or ''}")
    if fails:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{prop}.json")
        key, msg, case = fails[0]
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, key=key, message=msg, case=case,
                           replay=f"bin/check {prop} --replay {path}",
                           others=[dict(key=k, message=m[:500], case=c) for k, m, c in fails[1:6]]), f, indent=1)
        for k, m, c in fails[:3]:
            print(f"  disagreement [{k}] case={json.dumps(c)}\n    " + m.replace("\n", "\n    "))
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 0


def replay(mod, path, strict=True):
    d = json.load(open(path))
    if hasattr(mod, "setup"):
        mod.setup()
    rec = Rec({} if strict else load_known(mod.PROP), strict)
    signal.signal(signal.SIGALRM, _alarm)
    sc = tempfile.mkdtemp(prefix="mc_replay_")
    os.chdir(sc)
    try:
        run_one(mod, d["case"], rec)
    finally:
        os.chdir("/")
        shutil.rmtree(sc, ignore_errors=True)
    for k, m, c in rec.fails:
        print(f"[{k}] {json.dumps(c)}\n{m}")
    print("reproduced" if rec.fails else "not reproduced")
    return 1 if rec.fails else 0
