#!/usr/bin/env python3
"""Decides one property: check.py PROP {quick|thorough}   (exit 0 held / 1 violated)
                        check.py --replay FILE            (re-run one saved failing case)"""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import tlc  # noqa: E402

PY = "/opt/venv/bin/python"
NPROC = min(8, os.cpu_count() or 4)


def worker_env(scratch):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", PYKEOPS_VERBOSE="0",
               KEOPS_CACHE_FOLDER=os.path.join(scratch, "keops"))
    env.pop("PYTHONPATH", None)
    return env


def run_worker(prop, mode, infile, outfile, tier, seed, budget, scratch, nproc=NPROC):
    cmd = [PY, os.path.join(HERE, "worker.py"), prop, mode, infile, outfile, str(nproc), tier,
           str(seed), str(budget)]
    p = subprocess.run(cmd, env=worker_env(scratch), cwd=scratch, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, errors="replace",
                       timeout=budget + 240)
    return p


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as fh:
        data = json.load(fh)
    return {e["key"]: e for e in data.get("known", []) if e["property"] == prop}


def save_replay(prop, n, failure):
    d = os.path.join(ROOT, "out", prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "replay_%d.json" % n)
    with open(path, "w") as fh:
        json.dump({"property": prop, "failure": {k: v for k, v in failure.items() if k != "case"},
                   "case": failure.get("case")}, fh, indent=1)
    return path


def main():
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as fh:
            d = json.load(fh)
        return decide(d["property"], "quick", only=d["case"])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return decide(prop, tier)


def decide(prop, tier, only=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("props." + prop)
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    failures = []
    states = transitions = 0
    spec_runs = []
    counts = {}
    samples = []
    ncases = 0
    ntraces = 0
    try:
        # 1. the specification: model checking and behaviour generation
        cases = []
        traces = []
        if only is None:
            jobs = []
            for r in mod.tlc_runs(tier, seed):
                jobs.append((r.pop("name", r["module"]), r.pop("tag", None), r.pop("filter", None), r))
            with ThreadPoolExecutor(max_workers=4) as ex:
                results = list(ex.map(lambda j: tlc.run(**j[3]), jobs))
            for (name, tag, filt, r), res in zip(jobs, results):
                spec_runs.append({"run": name, "module": r["module"], "generated": res.states,
                                  "distinct": res.distinct, "depth": res.depth,
                                  "behaviours": len(res.emitted)})
                states += res.distinct
                transitions += res.states
                if res.violated:
                    failures.append({"clause": "specification", "detail": name + ": " + res.violated
                                     + res.out[-800:], "key": None, "case": None})
                em = res.emitted
                if filt:
                    em = filt(em)
                seen = set()
                for e in em:
                    if tag is not None:
                        e = {"tag": tag, "b": e}
                    s = json.dumps(e, sort_keys=True)
                    if s not in seen:
                        seen.add(s)
                        cases.append(s)
        else:
            if only is not None:
                cases = [json.dumps(only)]
        # order independent of TLC's worker schedule
        cases.sort()
        extra = getattr(mod, "extra_cases", None)
        if extra and only is None:
            cases += [json.dumps(c) for c in extra(tier, seed)]
        budget = getattr(mod, "BUDGET_S", {"quick": 420, "thorough": 3600})[tier]
        # 2. spec -> code: replay every generated behaviour
        if cases:
            infile = os.path.join(scratch, "cases.ndjson")
            with open(infile, "w") as fh:
                fh.write("\n".join(cases) + "\n")
            outfile = os.path.join(scratch, "res")
            p = run_worker(prop, "replay", infile, outfile, tier, seed, budget, scratch)
            if p.returncode != 0:
                failures.append({"clause": "code-did-not-load-or-crashed", "detail": p.stdout[-1500:],
                                 "key": None, "case": None})
            skipped = 0
            for k in range(NPROC):
                f = "%s.%d" % (outfile, k)
                if not os.path.exists(f):
                    continue
                with open(f) as fh:
                    d = json.load(fh)
                ncases += d["cases"]
                skipped += d["skipped"]
                for key, v in d["counts"].items():
                    counts[key] = counts.get(key, 0) + v
                samples += d["samples"]
                failures += d["failures"]
                traces += d["traces"]
            if skipped:
                counts["behaviours_not_reached_in_time"] = skipped
        # 3. code -> spec: executions recorded from the real code are validated by TLC
        if traces:
            ntraces = len(traces)
            for i in range(0, len(traces), 400):
                chunk = traces[i:i + 400]
                text = "\n".join(
                    json.dumps({k: v for k, v in t.items() if k != "case"}) for t in chunk) + "\n"
                res = tlc.run(mod.TRACE_MODULE, init="TraceInit", next_="TraceNext",
                              files={"traces.ndjson": text}, workers=1,
                              constants=getattr(mod, "TRACE_CONSTANTS", None))
                states += res.distinct
                transitions += res.states
                spec_runs.append({"run": "trace-validation", "module": mod.TRACE_MODULE,
                                  "generated": res.states, "distinct": res.distinct,
                                  "traces": len(chunk)})
                verdicts = {v["id"]: v for v in res.emitted}
                for t in chunk:
                    v = verdicts.get(t["id"])
                    if v is None:
                        raise tlc.TLCError("no verdict for trace %r\n%s" % (t["id"], res.out[-2000:]))
                    if v["bad"]:
                        failures.append({"clause": "trace:" + ",".join(sorted(map(str, v["bad"]))),
                                         "detail": json.dumps(t)[:1500],
                                         "key": v.get("key"), "case": t["case"]})
        # 4. verdict
        known = load_known(prop)
        if os.environ.get("VP_DUMP"):
            with open(os.environ["VP_DUMP"], "w") as fh:
                json.dump(failures, fh)
        hit = {}
        real = []
        for f in failures:
            if f.get("key") and f["key"] in known:
                hit[f["key"]] = hit.get(f["key"], 0) + 1
            else:
                real.append(f)
        wall = time.time() - t0
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
            "coverage": {
                "states": states, "transitions": transitions,
                "traces_validated_against_impl": ncases + ntraces,
                **({"recorded_traces_checked_by_tlc": ntraces} if ntraces else {}),
                "spec_runs": spec_runs, "counts": counts,
                "samples": samples[:6] or [json.loads(c) for c in cases[:2]],
            },
            "wall_s": round(wall, 2),
            "violations": len(real),
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "known_findings_hit": hit,
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        if only is None:
            with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as fh:
                json.dump(ev, fh, indent=1)
        for key in sorted(hit):
            print("KNOWN-FINDING: property=%s %s" % (prop, known[key]["what"]))
        if real:
            shown = {}
            for n, f in enumerate(real):
                if f["clause"] in shown and len(shown) > 4:
                    continue
                shown[f["clause"]] = shown.get(f["clause"], 0) + 1
                if shown[f["clause"]] > 2 or n > 200:
                    continue
                path = save_replay(prop, n, f)
                print("clause %s: %s" % (f["clause"], f["detail"][-700:]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
            print("%s: %d violations in %d behaviours, %.1f s" % (prop, len(real), ncases, wall))
            return 1
        print("%s held: %d spec states, %d behaviours replayed, %d recorded traces, %s, %.1f s"
              % (prop, states, ncases, ntraces, counts, wall))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except (tlc.TLCError, subprocess.TimeoutExpired, OSError) as exc:
        print("NO ANSWER: %s" % exc)
        sys.exit(2)
