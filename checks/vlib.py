"""Shared machinery of the checks: running drivers against /repo, running TLC, verdicts, evidence.

Every check has the same shape:
  1. scenarios come from a TLA+ specification (TLC writes them) and/or from a seeded generator,
  2. a driver executes them on the real code of /repo and records what was observed (ndjson),
  3. TLC evaluates the recorded observations against the specification and names the failing clause.
"""
import atexit
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPECS = VERIF / "specs"
DRIVERS = VERIF / "drivers"
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4

_scratches = []


class MachineryError(Exception):
    """the check itself is broken (never a verdict about the code)"""


def scratch(tag="v"):
    d = Path(tempfile.mkdtemp(prefix=f"vf-{tag}-"))
    _scratches.append(d)
    return d


@atexit.register
def _cleanup():
    for d in _scratches:
        subprocess.run(["chmod", "-R", "u+rwX", str(d)], stderr=subprocess.DEVNULL)
        shutil.rmtree(d, ignore_errors=True)


def tier(quick, thorough):
    return thorough if THOROUGH else quick


def rng(salt=""):
    return random.Random(f"{SEED}-{salt}")


# ---------------------------------------------------------------- drivers

def driver_env(home: Path, extra=None):
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PKM_HOME", "PYTHONSTARTUP", "VIRTUAL_ENV")}
    env.update({
        "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
        "XDG_DATA_HOME": str(home / "xdg"), "HOME": str(home), "TMPDIR": str(home / "tmp"),
        "PIP_NO_INPUT": "1", "PYTHONUNBUFFERED": "1", "LC_ALL": "C.UTF-8", "VERIF_SEED": str(SEED),
        "VERIF_TIER": TIER, "VERIF_REPO": str(REPO),
    })
    # make sure that it is the working tree of the repository that is executed, whatever the venv points at
    env["PYTHONPATH"] = os.pathsep.join([str(REPO / "pkm/src"), str(REPO / "pkm-cli/src"), str(DRIVERS)])
    env.update(extra or {})
    return env


def run_driver(script, in_obj=None, timeout=600, extra_env=None, in_lines=None, home=None, args=()):
    """runs a driver with its input as json (or ndjson) file, returns the list of records it wrote.
    A driver that dies is a machinery error, drivers catch whatever the code under test raises."""
    home = home or scratch("home")
    (home / "tmp").mkdir(exist_ok=True)
    inp, out = home / "in.json", home / "out.ndjson"
    if in_lines is not None:
        with inp.open("w") as f:
            for it in in_lines:
                f.write(json.dumps(it) + "\n")
    else:
        inp.write_text(json.dumps(in_obj))
    proc = subprocess.run(
        [PY, str(DRIVERS / script), str(inp), str(out), *args], cwd=home, env=driver_env(home, extra_env),
        stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
        errors="replace")
    if proc.returncode != 0:
        raise MachineryError(f"driver {script} exited with {proc.returncode}\n{proc.stdout[-4000:]}")
    with out.open() as f:
        return [json.loads(line) for line in f if line.strip()]


def run_drivers(script, chunks, timeout=600, extra_env=None, parallel=None, args=()):
    """runs the driver once per chunk (list of input records), concurrently; concatenates the records"""
    chunks = [c for c in chunks if c]
    with ThreadPoolExecutor(parallel or CORES) as ex:
        res = list(ex.map(lambda c: run_driver(script, in_lines=c, timeout=timeout, extra_env=extra_env, args=args), chunks))
    return [r for rs in res for r in rs]


def split(items, n=None):
    n = n or CORES
    return [items[i::n] for i in range(n)]


# ---------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.transitions = int(m[-1][0].replace(",", "")) if m else 0
        self.states = int(m[-1][1].replace(",", "")) if m else 0
        self.printed = [ln for ln in out.splitlines() if ln.startswith("<<") or ln.startswith('"')]
        self.ok = "Model checking completed. No error has been found." in out or \
                  ("Finished in" in out and "Error:" not in out)

    def error(self):
        i = self.out.find("Error:")
        return self.out[i:i + 3000] if i >= 0 else self.out[-3000:]


def run_tlc(module, cfg_text, env=None, workers=None, timeout=800, args=(), heap="6g", deadlock=False, files=None):
    """runs TLC on specs/<module>.tla with the given configuration text"""
    d = scratch("tlc")
    for f in SPECS.glob("*.tla"):
        shutil.copy(f, d / f.name)
    for name, text in (files or {}).items():
        (d / name).write_text(text)
    (d / "M.cfg").write_text(cfg_text)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-Djava.io.tmpdir=" + str(d), "-cp", TLA_CP, "tlc2.TLC",
           "-workers", str(workers or CORES), "-metadir", str(d / "meta"), "-config", "M.cfg", "-noGenerateSpecTE"]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += [*args, module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as ex:
        raise MachineryError(f"TLC on {module} timed out after {timeout}s: {str(ex.stdout)[-1500:]}")
    r = TlcResult(out, rc)
    r.dir = d
    return r


def judge(module, records, extra_cfg="", timeout=800, workers=None, heap="8g", env=None, constants=None):
    """gives every record to the specification's Verdict operator.
    Returns ([(index, clause)] of the rejected records, TlcResult).  Every record is judged: the specification is total."""
    if not records:
        raise MachineryError(f"{module}: nothing was recorded")
    d = scratch("tr")
    t = d / "trace.ndjson"
    with t.open("w") as f:
        for r in records:
            f.write(json.dumps(r) + "\n")
    cfg = "INIT Init\nNEXT Next\nINVARIANT Judged\n"
    for k, v in (constants or {}).items():
        cfg += f"CONSTANT {k} = {v}\n"
    cfg += extra_cfg
    r = run_tlc(module, cfg, env={"TRACE": str(t), **(env or {})}, workers=workers, timeout=timeout, heap=heap)
    if not r.ok:
        raise MachineryError(f"TLC could not judge {module}: {r.error()}")
    if r.states != 2 * len(records):
        raise MachineryError(f"TLC judged {r.states} states for {len(records)} records in {module}\n{r.out[-1500:]}")
    bad = []
    for ln in r.printed:
        m = re.match(r'<<"BAD", (\d+), "(.*)">>', ln)
        if m:
            bad.append((int(m.group(1)) - 1, m.group(2)))
    return sorted(set(bad)), r


def model_check(module, cfg_text, timeout=800, workers=None, args=(), env=None, heap="8g", expect_ok=True, files=None,
                deadlock=False):
    """model checks the design: a failure here is an error of the specification, not of the code"""
    r = run_tlc(module, cfg_text, env=env, workers=workers, timeout=timeout, args=args, heap=heap, files=files,
                deadlock=deadlock)
    if expect_ok and not r.ok:
        raise MachineryError(f"the specification {module} does not satisfy its own properties: {r.error()}")
    return r


# ---------------------------------------------------------------- verdict and evidence

def known_findings(prop):
    """lines: `finding: property=<id> key=<key> :: <text>`; fixed entries suppress nothing"""
    res = {}
    f = VERIF / "known_findings.txt"
    if f.exists():
        for ln in f.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) key=(\S+) :: (.*)", ln)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.violations = []  # (key, clause, replay data)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []

    def add_tlc(self, r):
        self.cov["states"] += r.states
        self.cov["transitions"] += r.transitions

    def count(self, n, name=None):
        self.cov["traces_validated_against_impl"] += n
        if name:
            self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, obj, limit=4):
        if len(self.cov["samples"]) < limit:
            s = json.dumps(obj)
            self.cov["samples"].append(obj if len(s) < 3000 else s[:3000])

    def violate(self, key, clause, data):
        self.violations.append((key, clause, data))

    def judge(self, module, records, key=None, timeout=800, keep_samples=2, **kw):
        bad, r = judge(module, records, timeout=timeout, **kw)
        self.add_tlc(r)
        self.count(len(records))
        for rec in records[:keep_samples]:
            self.sample(rec)
        for i, clause in bad:
            if clause == "MACHINERY":
                raise MachineryError(f"{module}: the recording of record {i} is unusable: {json.dumps(records[i])[:3000]}")
            self.violate((key(records[i], clause) if key else f"{module}-{clause}"), clause, records[i])
        return bad

    def finish(self):
        known = known_findings(self.prop)
        new = [v for v in self.violations if v[0] not in known]
        seen_known = sorted({v[0] for v in self.violations if v[0] in known})
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
        for k in seen_known:
            print(f"KNOWN-FINDING: property={self.prop} {k}: {known[k]}")
        if new:
            rd = VERIF / "evidence" / "replays"
            rd.mkdir(exist_ok=True)
            path = rd / f"{self.prop}.json"
            seen = {}
            for v in new:  # some of every kind
                seen.setdefault(v[1], []).append(v)
            shown = [v for n in range(50) for vs in seen.values() for v in vs[n:n + 1]][:50]
            path.write_text(json.dumps([{"key": k, "clause": c, "record": d} for k, c, d in shown], indent=1) + "\n")
            for k, c, d in new[:8]:
                print(f"  rejected by the specification: clause={c} record={json.dumps(d)[:700]}")
            print(f"  {len(new)} rejected records in total")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"{self.prop}: held on everything explored ({self.cov['traces_validated_against_impl']} observed "
              f"executions, {self.cov['states']} states, {ev['wall_s']}s)")
        return 0
