"""installs and removes real wheels in a site and records what is on the disk after every operation

input records: {W, ops, mode: concurrency}"""
import csv
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
from dataclasses import replace
from pathlib import Path

from common import main, err_name, time_limit, silent
from packs import ver, dep_text
from wheels import build, digest, key
from pkm.api.dependencies.dependency import Dependency
from pkm.api.distributions.distinfo import DistInfo
from pkm.api.environments.environment_builder import EnvironmentBuilder
from pkm.api.packages.site_packages import SitePackages
from pkm.api.pkm import pkm
from pkm.repositories.file_system_repository import FileSystemRepositoryBuilder
from pkm.resolution.pubgrub import UnsolvableProblemException


class Site:
    def __init__(self, W, root: Path, env):
        self.W, self.root, self.env = W, root, env
        self.roots = {"pure": root / "lib" / "pure", "plat": root / "lib" / "plat", "scripts": root / "bin",
                      "data": root / "share"}
        for d in self.roots.values():
            d.mkdir(parents=True)
        self.target = replace(env.installation_target, purelib=str(self.roots["pure"]), platlib=str(self.roots["plat"]),
                              scripts=str(self.roots["scripts"]), data=str(self.roots["data"]),
                              include=str(root / "include"), platinclude=str(root / "platinclude"),
                              stdlib=str(root / "stdlib"), platstdlib=str(root / "platstdlib"))
        self.index = {key(n): i for i, n in enumerate(W["names"])}
        self.pool = [Dependency.parse(dep_text(d)) for d in W["pool"]]
        self.versions = [[str(ver(v)) for v in vs] for vs in W["vers"]]
        self.wheels = root / "wheels"
        self.wheels.mkdir()
        self.paths = [[build(W, p, i, self.wheels) for i in range(len(W["vers"][p]))] for p in range(W["n"])]
        self.touched = set()
        self.interpreter = str(env.interpreter_path.absolute())

    def repo(self, off, k):
        d = self.root / f"repo{k}"
        d.mkdir()
        for p, ps in enumerate(self.paths):
            for i, w in enumerate(ps):
                if not off[p][i]:
                    os.link(w, d / w.name)
        return FileSystemRepositoryBuilder().build("repo", str(d))

    def locate(self, path: Path):
        for name, r in self.roots.items():
            if r in path.parents:
                return name, str(path.relative_to(r))
        return "out", str(path)

    def snapshot(self):
        """files, bytecode files, empty directories of the site packages"""
        files, pycs, empty = [], [], []
        for name, r in self.roots.items():
            for d, dirs, fs in os.walk(r):
                here = Path(d)
                if here != r and any(p.endswith(".dist-info") for p in here.relative_to(r).parts):
                    continue
                if name in ("pure", "plat") and not dirs and not fs and here != r and here != r / '__pycache__' \
                        and not (here.name == "__pycache__" and any(here.parent.glob("*.py"))):
                    empty.append(f"{name}/{here.relative_to(r)}")
                for f in fs + [x for x in dirs if (here / x).is_symlink()]:
                    p = here / f
                    rel = str(p.relative_to(r))
                    if here.name == "__pycache__" and f.endswith(".pyc"):
                        src = here.parent / (f.split(".")[0] + ".py")
                        pycs.append({"path": rel, "source": src.exists() or (here.parent == r and ".cpython-39." in f)})
                        continue
                    if p.is_symlink():
                        text = "-> " + os.readlink(p)
                    else:
                        text = p.read_bytes().decode("latin-1")
                        if name == "scripts" and text.startswith(f"#!{self.interpreter}\n"):
                            text = "#!python\n" + text[len(self.interpreter) + 3:]
                    files.append({"root": name, "path": rel, "text": text, "x": os.access(p, os.X_OK) and not p.is_symlink()})
        extra = [x for x in self.root.iterdir()
                 if x.name in ("include", "platinclude", "stdlib", "platstdlib")]
        for x in extra:
            files.append({"root": "out", "path": x.name, "text": "", "x": False})
        return files, pycs, empty

    def look(self):
        n = self.W["n"]
        st = {"v": [0] * n, "r": [0] * n}
        for p in SitePackages(self.env, self.roots["pure"], self.roots["plat"]).installed_packages():
            i = self.index[p.name_key]
            st["v"][i] = self.versions[i].index(str(p.version)) + 1 if str(p.version) in self.versions[i] else -1
            if (req := p.user_request) is not None:
                c = [k for k, t in enumerate(self.pool) if str(t) == str(req)]
                st["r"][i] = c[0] + 1 if c else -1
        return st

    def infos(self, st):
        res = []
        for root in ("pure", "plat"):
            for di in self.roots[root].glob("*.dist-info"):
                p = self.index.get(key(di.name.split("-")[0]), -1)
                rows = []
                if (di / "RECORD").exists():
                    with (di / "RECORD").open(newline="", encoding="utf-8") as f:
                        for row in csv.reader(f):
                            if row:
                                rows.append(self.row(di, row))
                res.append({"p": p + 1, "root": root, "names": sorted(x.name for x in di.iterdir()), "rows": rows,
                            "touched": (p + 1) in self.touched})
        return res

    def row(self, di, row):
        path = Path(os.path.normpath(di.parent / row[0]))
        root, rel = self.locate(path)
        kind = "info" if di in path.parents else "pyc" if path.suffix == ".pyc" else "file"
        h, size = (row + ["", ""])[1:3]
        if not path.exists():
            state = "missing"
        elif not h:
            state = "nohash"
        else:
            data = path.read_bytes()
            alg, _, val = h.partition("=")
            real = digest(data) if alg == "sha256" else "?"
            state = "hash" if real != val.rstrip("=") else "size" if size and int(size) != len(data) else "ok"
        return {"root": root, "path": rel, "kind": kind, "state": state}

    def disturb(self, op):
        """things that happen to a site between the operations of the package manager"""
        base = self.roots[op["root"]] / op["path"]
        if op["k"] == "foreign":
            if not base.exists() and not base.is_symlink():
                base.parent.mkdir(parents=True, exist_ok=True)
                base.write_bytes(op["text"].encode("latin-1"))
        elif op["k"] == "link":
            if base.exists() and not base.is_symlink():
                target = self.roots["data"] / f"mine-{len(self.touched)}.txt"
                target.write_text("mine")
                base.unlink()
                base.symlink_to(target)
                self.touched.add(op["p"])
        elif op["k"] == "run" and op["root"] in ("pure", "plat") and base.exists() and base.suffix == ".py":
            (base.parent / "__pycache__").mkdir(exist_ok=True)
            (base.parent / "__pycache__" / f"{base.stem}.cpython-39.pyc").write_bytes(b"")

    def perform(self, op, k):
        if op["k"] == "install":
            over = {o["name"]: Dependency.parse(dep_text(o["d"])) for o in op["over"]}
            self.target.install([self.pool[i - 1] for i in op["d"]], self.repo(op["off"], k), user_requested=op["user"],
                                dependencies_override=over or None, updates=[op["spell"][p - 1] for p in op["up"]] or None)
            return []
        names = [op["spell"][p - 1] for p in op["u"]]
        if op["k"] == "remove":
            return [op["u"][0]] if self.target.force_remove(names[0]) else []
        res = self.target.uninstall(names)
        return [p for p, nm in zip(op["u"], names) if nm in res] + [99 for r in res if r not in names]

    def run_entries(self, st):
        res = []
        for p in range(self.W["n"]):
            if st["v"][p] and (p + 1) not in self.touched:
                for e in self.W["files"][p][st["v"][p] - 1]:
                    if e["k"] == "entry":
                        pr = subprocess.run([str(self.roots["scripts"] / e["path"])], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                            env={"PYTHONPATH": f"{self.roots['pure']}:{self.roots['plat']}", "PYTHONDONTWRITEBYTECODE": "1"},
                                            stdin=subprocess.DEVNULL)
                        res.append({"p": p + 1, "out": f"{pr.stdout.strip()} {pr.returncode}", "expect": e["prints"]})
        return res


def run(recs):
    root = Path(tempfile.mkdtemp())
    with silent():
        env = EnvironmentBuilder.create(root / "env")
    for k, rec in enumerate(recs):
        W = rec["W"]
        pkm.config.concurrency_mode = rec["mode"]
        here = root / str(k)
        here.mkdir()
        site = Site(W, here, env)
        st = {"v": [0] * W["n"], "r": [0] * W["n"]}
        ops = rec["ops"]
        for j, op in enumerate(ops):
            if op["k"] in ("foreign", "link", "run"):
                site.disturb(op)
                continue
            o1 = site.snapshot()[0]
            out = {"W": W, "st": st, "op": op, "out": "ok", "error": "", "ret": [], "o1": o1, "ran": [], "orphans": [-1],
                   "conc": rec["mode"], "damaged": rec["damaged"]}
            try:
                with time_limit(60), silent():
                    out["ret"] = site.perform(op, j)
            except UnsolvableProblemException as e:
                out["out"] = "unsolvable"
            except BaseException as e:
                out["out"], out["error"], out["detail"] = "error", err_name(e), repr(e)[:300]
            st = out["st2"] = site.look()
            site.touched = {p for p in site.touched if st["v"][p - 1] == out["st"]["v"][p - 1]}
            out["o2"], out["pycs"], out["empty"] = site.snapshot()
            out["infos"] = site.infos(st)
            if rec["run"] and j == len(ops) - 1:
                out["ran"] = site.run_entries(st)
            yield out
            if min(st["v"]) < 0 or min(st["r"]) < 0:
                break
        shutil.rmtree(here, ignore_errors=True)


if __name__ == "__main__":
    main(run)
