"""Replays behaviours into the real code.  Runs under /opt/venv/bin/python (PyPy) with the
probnum package of /repo/src.  usage: worker.py PROP MODE IN OUT NPROC TIER SEED"""
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
import types
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
SRC = os.environ.get("VP_REPO", "/repo") + "/src"
sys.path.insert(0, SRC)


def bootstrap():
    if not os.path.exists(os.path.join(SRC, "probnum", "_version.py")):
        m = types.ModuleType("probnum._version")
        m.version = "1.0.0"
        m.__version__ = "1.0.0"
        sys.modules["probnum._version"] = m
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    import probnum

    assert os.path.realpath(probnum.__file__).startswith(os.path.realpath(SRC)), probnum.__file__
    # import everything the drivers use before forking
    import probnum.diffeq, probnum.filtsmooth, probnum.functions, probnum.linalg  # noqa
    import probnum.linops, probnum.problems, probnum.quad, probnum.randprocs, probnum.randvars  # noqa
    import probnum.problems.zoo.diffeq  # noqa


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


class Ctx:
    """Collects the verdicts of one case."""

    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed
        self.failures = []
        self.counts = {}
        self.sample = None
        self.traces = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fail(self, clause, detail, key=None):
        self.failures.append({"clause": clause, "detail": str(detail)[:1500], "key": key})

    def trace(self, tid, meta, events):
        """An execution of the real code, to be validated by TLC."""
        self.traces.append({"id": tid, "meta": meta, "events": events})

    def check(self, cond, clause, detail="", key=None):
        self.count("comparisons")
        if not cond:
            self.fail(clause, detail() if callable(detail) else detail, key)
        return bool(cond)


def run_case(mod, case, tier, seed, limit):
    ctx = Ctx(tier, seed)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.replay(case, ctx)
    except CaseTimeout:
        ctx.fail("termination", "the call did not return within %s s" % limit)
    except Exception:  # the code under test raised where the specification allows no error
        ctx.fail("unexpected-exception", traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ctx


def tickets(path):
    """Hands out 0, 1, 2, ... once each among all worker processes."""
    import fcntl

    def take():
        with open(path, "a+") as fh:
            fcntl.flock(fh, fcntl.LOCK_EX)
            fh.seek(0)
            i = int(fh.read() or 0)
            fh.seek(0)
            fh.truncate()
            fh.write(str(i + 1))
            fh.flush()
        return i
    return take


def shard(mod, infile, outfile, k, n, tier, seed, budget):
    limit = getattr(mod, "CASE_LIMIT_S", 60)
    max_fail = int(os.environ.get('VP_MAX_FAIL', '40'))
    res = {"cases": 0, "counts": {}, "failures": [], "samples": [], "skipped": 0, "traces": []}
    t_end = time.time() + budget
    with open(infile) as fh:
        lines = fh.readlines()
    nxt = tickets(infile + ".next")
    for i in iter(nxt, None):
        if i >= len(lines):
            break
        line = lines[i]
        if time.time() > t_end:
            res["skipped"] += 1
            continue
        case = json.loads(line)
        ctx = run_case(mod, case, tier, seed, limit)
        res["cases"] += 1
        for key, v in ctx.counts.items():
            res["counts"][key] = res["counts"].get(key, 0) + v
        if ctx.sample is not None and len(res["samples"]) < 2:
            res["samples"].append(ctx.sample)
        for tr in ctx.traces:
            tr["case"] = case
            res["traces"].append(tr)
        # a known finding must not hide another failure of the same case
        fresh = [f for f in ctx.failures if not f.get("key")][:5]
        for f in fresh + [f for f in ctx.failures if f.get("key")][:1]:
            if len(res["failures"]) < max_fail or f.get("key"):
                f["case"] = case
                res["failures"].append(f)
        res["nfail"] = res.get("nfail", 0) + len(ctx.failures)
    with open(outfile, "w") as fh:
        json.dump(res, fh)


def main():
    prop, mode, infile, outfile, nproc, tier, seed, budget = sys.argv[1:9]
    nproc, seed, budget = int(nproc), int(seed), float(budget)
    bootstrap()
    mod = importlib.import_module("props." + prop)
    if mode == "replay":
        pids = []
        for k in range(nproc):
            pid = os.fork()
            if pid == 0:
                rc = 0
                try:
                    shard(mod, infile, "%s.%d" % (outfile, k), k, nproc, tier, seed, budget)
                except BaseException:
                    traceback.print_exc()
                    rc = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(rc)
            pids.append(pid)
        bad = 0
        for pid in pids:
            _, st = os.waitpid(pid, 0)
            bad |= st
        sys.exit(3 if bad else 0)


if __name__ == "__main__":
    main()
