"""Running TLC (orchestrator side, CPython): model checking, behaviour generation and
trace validation.  Every run happens in a scratch directory that is removed afterwards."""
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC_DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MARK = "@@"


class TLCError(Exception):
    """TLC could not do its job (parse error, evaluation error, resource limit)."""


class TLCResult:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.depth = 0
        self.emitted = []
        self.violated = None
        self.out = ""
        self.coverage = {}


def _cfg_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v if v.startswith("{") or v.startswith("<-") else '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(_cfg_value(x) for x in sorted(v, key=str)) + "}"
    raise TypeError(v)


def run(
    module,
    *,
    init="Init",
    next_="Next",
    spec=None,
    constants=None,
    invariants=(),
    properties=(),
    constraints=(),
    action_constraints=(),
    postcondition=None,
    view=None,
    deadlock=False,
    simulate=None,
    depth=None,
    seed=1,
    workers=8,
    timeout=600,
    files=None,
    coverage=False,
    heap="3g",
):
    """Run TLC on spec/<module>.tla with a generated configuration."""
    scratch = tempfile.mkdtemp(prefix="vp_tlc_")
    try:
        for f in os.listdir(SPEC_DIR):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC_DIR, f), scratch)
        for name, text in (files or {}).items():
            with open(os.path.join(scratch, name), "w") as fh:
                fh.write(text)
        cfg = []
        if spec:
            cfg.append("SPECIFICATION " + spec)
        else:
            cfg.append("INIT " + init)
            cfg.append("NEXT " + next_)
        if constants:
            cfg.append("CONSTANTS")
            for k, v in constants.items():
                if isinstance(v, str) and v.startswith("<-"):
                    cfg.append("  %s %s" % (k, v))
                else:
                    cfg.append("  %s = %s" % (k, _cfg_value(v)))
        for name in invariants:
            cfg.append("INVARIANT " + name)
        for name in properties:
            cfg.append("PROPERTY " + name)
        for name in constraints:
            cfg.append("CONSTRAINT " + name)
        for name in action_constraints:
            cfg.append("ACTION_CONSTRAINT " + name)
        if postcondition:
            cfg.append("POSTCONDITION " + postcondition)
        if view:
            cfg.append("VIEW " + view)
        cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        with open(os.path.join(scratch, "MC.cfg"), "w") as fh:
            fh.write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", CP, "tlc2.TLC",
               "-config", "MC.cfg", "-metadir", os.path.join(scratch, "meta"), "-noGenerateSpecTE"]
        if simulate is not None:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(seed), "-workers", "1"]
            if depth:
                cmd += ["-depth", str(depth)]
        else:
            cmd += ["-workers", str(workers), "-fpmem", "0.15"]
        if coverage:
            cmd += ["-coverage", "1"]
        cmd.append(module + ".tla")
        try:
            p = subprocess.run(cmd, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise TLCError("TLC timed out after %ss on %s" % (timeout, module))
        return _parse(module, p.returncode, p.stdout)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _parse(module, rc, out):
    r = TLCResult()
    rest = []
    for line in out.splitlines():
        if line.startswith('"' + MARK):
            # PrintT of a TLA+ string: the value is a quoted, escaped string
            s = line[len(MARK) + 1: line.rindex('"')]
            s = s.replace('\\"', '"').replace("\\\\", "\\")
            r.emitted.append(json.loads(s))
        else:
            rest.append(line)
    r.out = "\n".join(rest)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.out)
    if m:
        r.states, r.distinct = int(m.group(1)), int(m.group(2))
    else:
        m = re.search(r"number of states generated: (\d+)", r.out) or re.search(
            r"Progress: (\d+) states checked", r.out)
        if m:
            r.states = int(m.group(1))  # simulation: states are not deduplicated
    m = re.search(r"depth of the complete state graph search is (\d+)", r.out)
    if m:
        r.depth = int(m.group(1))
    m = re.search(r"Invariant (\w+) is violated|Action property (\w+) is violated|"
                  r"Temporal properties were violated|Postcondition (\w+)", r.out)
    if m:
        r.violated = m.group(0)
    for m in re.finditer(r"<(\w+) line \d+, col \d+ to line \d+, col \d+ of module \w+>: (\d+):(\d+)", r.out):
        r.coverage[m.group(1)] = r.coverage.get(m.group(1), 0) + int(m.group(3))
    if rc != 0 and r.violated is None:
        raise TLCError("TLC failed on %s (exit %d):\n%s" % (
            module, rc, "\n".join(l for l in r.out.splitlines() if "rror" in l)[:1500] + "\n" + r.out[-1200:]))
    return r
