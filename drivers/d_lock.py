"""the lock of a project in several environments

input records: {W: {n, envs, key, vers: per package [version texts, newest first], names: per package [spellings]}, ops: [...], seed}"""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

from common import main, err_name
from d_site import Light, Repo, key, environment
from pkm.api.dependencies.dependency import Dependency
from pkm.api.environments.environment import Environment
from pkm.api.packages.package_installation_info import StoreMode
from pkm.api.versions.version import Version
from pkm.api.versions.version_specifiers import AllowAllVersions
from pkm.resolution.packages_lock import PackagesLock, LockPrioritizingRepository

KINDS = [{"sys_platform": "linux"}, {"sys_platform": "win32"}, {"sys_platform": "linux", "python_version": "3.1"}]


def envs_of(W, root, base=None):
    base = base or environment()
    res = []
    for e in range(W["envs"]):
        env = Environment(base.path)
        site = root / f"site{e}"
        site.mkdir(exist_ok=True)
        marks = {**base.markers, **KINDS[W["key"][e] - 1]}
        if FRESH:  # another program may compute them in another order
            marks = dict(reversed(marks.items()))
        env.markers = marks
        env.site_packages = type(base.site_packages)(env, site, site)
        res.append((env, site))
    return res


def restarted(rec, root):
    """the lock as another program, started later, sees it"""
    (root / "in.json").write_text(json.dumps({**rec, "base": str(environment().path)}) + "\n")
    subprocess.run([sys.executable, __file__, str(root / "in.json"), str(root / "out.json"), "fresh"], check=True, timeout=120,
                   env={**os.environ, "PYTHONHASHSEED": "7"}, stdout=subprocess.DEVNULL)
    return json.loads((root / "out.json").read_text())


FRESH = len(sys.argv) > 3 and sys.argv[3] == "fresh"


def fresh(recs):
    root = Path(sys.argv[1]).parent
    yield run_one({**recs[0], "ops": [{"k": "load"}]}, root)["obs"][0]


def run_one(rec, root):
    W, r = rec["W"], random.Random(rec["seed"])
    envs = envs_of(W, root, Environment(Path(rec["base"])) if FRESH else None)
    file = root / "project" / "etc" / "pkm" / "packages-lock.toml"
    lock = PackagesLock.load(file)
    index = {key(sp): p for p, sps in enumerate(W["names"]) for sp in sps}
    vers = [[Version.parse(v) for v in vs] for vs in W["vers"]]

    def number(p, v):
        return next((i + 1 for i, x in enumerate(W["vers"][p]) if x == str(v)), -1)

    def observe():
        o = {"specific": [], "tried": [], "offered": [], "got": []}
        for env, _ in envs:
            o["specific"].append([[index.get(d.name_key, -1) + 1, number(index.get(d.name_key, 0), d.version)] for d in lock.env_specific_locks(env)])
            tried, offered, got = [], [], []
            for p in range(W["n"]):
                tried.append([number(p, d.version) for d in lock.locked_versions(env, r.choice(W["names"][p]))])
                called = r.choice(W["names"][p])
                repo = Repo({key(called): [Light(called, v, []) for v in vers[p]]})
                dep = Dependency(r.choice(W["names"][p]), AllowAllVersions)
                offered.append([number(p, x.version) for x in repo.match(dep, env)])
                got.append([number(p, x.version) for x in LockPrioritizingRepository("locked", repo, lock).match(dep, env)])
            o["tried"].append(tried)
            o["offered"].append(offered)
            o["got"].append(got)
        return o

    out, obs = [], []
    for op in rec["ops"]:
        res = "ok"
        try:
            if op["k"] == "set":
                env, site = envs[op["e"] - 1]
                p = op["p"] - 1
                for d in site.iterdir():
                    if index[key(d.name.split("-")[0])] == p:
                        shutil.rmtree(d)
                if op["v"]:
                    Light(r.choice(W["names"][p]), vers[p][op["v"] - 1], []).write(site, None, StoreMode.COPY)
                env.site_packages.reload()
            elif op["k"] == "update":
                lock.update_lock(envs[op["e"] - 1][0])
            elif op["k"] == "unlock":
                lock.unlock_packages([r.choice(W["names"][p - 1]) for p in op["ps"]])
            elif op["k"] == "save":
                lock.save()
            else:
                lock = PackagesLock.load(file)
                if op.get("restart"):
                    obs.append(restarted(rec, root))
                    out.append(res)
                    continue
            obs.append(observe())
        except Exception as e:
            res = err_name(e)
            import traceback
            rec["trace"] = traceback.format_exc()[-1500:]
        out.append(res)
        if res != "ok":
            obs.append({})
            break
    n = len(out)
    return {"W": {k: W[k] for k in ("n", "envs", "key")}, "ops": rec["ops"][:n], "out": out, "obs": obs, "given": rec}


def run(recs):
    for rec in recs:
        root = Path(tempfile.mkdtemp())
        try:
            yield run_one(rec, root)
        finally:
            shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main(fresh if FRESH else run)
