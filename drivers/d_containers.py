"""applications in containers of real environments

input records: {repo, names, apps, display, ops, layout, seed}; every operation is answered and followed by a look at the environment"""
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

from common import main, err_name, silent, time_limit, CaseTimeout
from kit_wheels import wheel
from pkm.api.dependencies.dependency import Dependency
from pkm.api.environments.environment import Environment
from pkm.api.environments.environment_builder import EnvironmentBuilder
from pkm.api.packages.package_installation_info import StoreMode
from pkm.api.pkm import pkm
from pkm.api.projects.project import Project

CODE = '''
V = {v}
def main():
    import importlib, json, os, shutil, subprocess, sys
    if "NEST" in os.environ:
        return subprocess.run([shutil.which(os.environ.pop("NEST"))]).returncode
    share = os.path.join(sys.prefix, "share", "{n}")
    data = [int(f[:-4]) for f in os.listdir(share)] if os.path.isdir(share) else []
    sees = []
    for n in {names}:
        try:
            sees.append({{"n": n, "v": importlib.import_module(n).V}})
        except ImportError:
            sees.append({{"n": n, "v": 0}})
    print(json.dumps({{"n": "{n}", "v": V, "sees": sees, "data": data}}))
    return 10 + V
class Cls:
    run = staticmethod(main)
main_{v} = main  # only this version has it
'''
SUB = "from {n} import main\n"


def key(name):
    return name.replace("-", "_").replace(".", "_").lower()


def digest(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(str(f).encode() + b"\0")
        h.update(b"link " + os.readlink(f).encode() if f.is_symlink() else f.read_bytes() if f.is_file() else b"-")
    return h.hexdigest()


class Case:
    def __init__(self, rec, root):
        self.rec, self.root, self.r = rec, root, random.Random(rec["seed"])
        self.wheels = root / "wheels"
        self.wheels.mkdir()
        for p in rec["repo"]:
            self.publish(p)
        with silent(), time_limit(60):
            EnvironmentBuilder.create(root / "env")
        self.path = root / "env"
        (self.path / "etc/pkm").mkdir(parents=True, exist_ok=True)
        (self.path / "etc/pkm/repositories.toml").write_text(f'[repos.here]\ntype = "file-system"\npath = "{self.wheels}"\n')
        self.load()
        self.site, self.bin = Path(self.env.installation_target.purelib), Path(self.env.installation_target.scripts)
        self.site.mkdir(parents=True, exist_ok=True)
        self.share = self.path / "share"
        self.own = set(self.tree())

    def publish(self, p):
        n, layout = p["n"], self.rec["layout"][p["n"]]
        code = CODE.format(v=p["v"], n=n, names=self.rec["names"])
        files = {"dir": {f"{n}/__init__.py": code, f"{n}/sub.py": SUB.format(n=n), f"{n}/data/{p['v']}.txt": "data"}, "single": {f"{n}.py": code},
                 "path": {f"{n}_files/{n}/__init__.py": code, f"{n}_files/{n}/sub.py": SUB.format(n=n), f"{n}_path.pth": f"{n}_files\n"}}[layout]
        # (launchers of applications stay as they are if plugins change their version)
        refs = ([] if n in self.rec["apps"] else [f"{n}:main_{p['v']}"]) + [f"{n}:main", f"{n}:Cls.run"] + ([f"{n}.sub:main"] if layout != "single" else [])
        show = lambda q: self.rec["display"][q["n"]] + self.spec(q)
        wheel(self.rec["display"][n].replace(".", "-"), f"{p['v']}.0", files, [f"{s} = {random.Random(n + s).choice(refs)}" for s in p["scripts"]], [show(q) for q in p["deps"]], self.wheels,
              data={f"data/share/{n}/{p['v']}.txt": "data"})

    def project(self, n, v):
        """the same application as in the repository, as a project"""
        p = next(p for p in self.rec["repo"] if (p["n"], p["v"]) == (n, v))
        d = self.root / "projects" / f"{n}-{v}"
        if not d.exists():
            (d / "src" / n).mkdir(parents=True)
            (d / "src" / n / "__init__.py").write_text(CODE.format(v=v, n=n, names=self.rec["names"]))
            (d / "etc/pkm").mkdir(parents=True)
            shutil.copy(self.path / "etc/pkm/repositories.toml", d / "etc/pkm/repositories.toml")
            scripts = {s: f"{n}:" + random.Random(n + s).choice(["main", "Cls.run"]) for s in p["scripts"]}
            (d / "pyproject.toml").write_text("\n".join(
                ["[project]", f'name = "{self.rec["display"][n]}"', f'version = "{v}.0"',
                 "dependencies = " + json.dumps([self.rec["display"][q["n"]] + self.spec(q) for q in p["deps"]]), "[project.scripts]"]
                + [f'"{k}" = "{x}"' for k, x in scripts.items()] + ["[build-system]", 'requires = ["pkm"]', 'build-backend = "pkm.api.buildsys"', ""]))
        return Project.load(d)

    def spec(self, q):
        if q["lo"] == q["hi"]:
            return f"=={q['lo']}.0"
        parts = ([f">={q['lo']}.0"] if q["lo"] > 1 else []) + ([f"<={q['hi']}.0"] if q["hi"] < 9 else [])
        return ",".join(parts)

    def load(self):
        self.env = Environment.load(self.path)

    def tree(self):
        for top in (self.site, self.bin, self.share):
            for d, ds, fs in os.walk(top):
                if "__pycache__" in ds:
                    ds.remove("__pycache__")
                for x in fs + ds:
                    yield Path(d, x)

    @staticmethod
    def recorded(p):
        return {Path(os.path.normpath(Path(os.path.realpath(f.parent), f.name))) for f in p.dist_info.installed_files()} | {f.parent.resolve() / f.name for f in p.dist_info.path.iterdir()}

    def containers(self):
        return self.env.package_containers.containers()

    def look(self, runs=True):
        self.load()
        a = {"out": "", "err": "", "main": [], "apps": [], "bin": [], "runs": [], "nested": [], "stray": [], "lost": [], "digests": [], "all": ""}
        packs = self.env.site_packages.installed_packages()
        wrappers = [p for p in packs if p.dist_info.is_app_container()]
        own = [p for p in packs if p not in wrappers]
        site = self.site.resolve()
        a["main"] = [{"n": key(p.name), "v": int(str(p.version).split(".")[0])} for p in own]
        owned = set(self.own)
        files = set()
        for p in own:
            files |= {f for f in self.recorded(p) if "__pycache__" not in f.parts}
        owned |= files
        a["digests"] = [{"app": "", "d": digest(files)}]
        for p in wrappers:
            mine = self.recorded(p)
            owned |= mine
        for c in self.containers():
            main_, inner = c.containerized_package, c.installation_target.site_packages.installed_packages()
            base = Path(c.installation_target.data).parent
            rest = [p for p in inner if p.name_key != c.package.name_key]
            for p in inner:
                mine = self.recorded(p)
                owned |= mine
                a["lost"] += sorted(str(f) for f in mine if not f.exists())
            a["apps"].append({"app": key(main_.name), "version": int(str(main_.version).split(".")[0]), "plugins": sorted(key(p.name) for p in c.list_installed_plugins()),
                              "pk": [{"n": key(p.name), "v": int(str(p.version).split(".")[0])} for p in rest]})
            inner = Path(c.installation_target.scripts)
            a["apps"][-1]["bin"] = sorted(f.name for f in inner.iterdir()) if inner.exists() else []
            inside = [x for x in self.tree() if base in x.parents]
            a["digests"].append({"app": key(main_.name), "d": digest(inside + list(c.package.dist_info.path.iterdir()))})
            for d in (base / "__container__", base / "__container__/site", base / "__container__/bin"):
                owned.add(d)
        for f in list(owned):
            owned.update(f.parents)
        owned.update({Path(str(f).replace(str(site), str(self.site))) for f in owned})
        everything = list(self.tree())
        a["stray"] = sorted(str(f.relative_to(self.path)) for f in everything if f not in owned and not ("share" in f.parts and f.is_dir()))[:5]
        a["lost"] += sorted(str(f) for p in own for f in self.recorded(p) if not f.exists())
        a["lost"] = a["lost"][:5]
        a["all"] = digest(everything)
        a["bin"] = sorted(f.name for f in self.bin.iterdir() if f not in self.own)
        if runs:
            a["runs"] = [{"s": x, **self.run(x)} for x in a["bin"]]
            for app in a["apps"]:
                outer = [x["s"] for x in a["runs"] if x["n"] == app["app"]]
                if outer and app["bin"]:
                    nest = self.r.choice(app["bin"])
                    a["nested"].append({"s": nest, "app": app["app"], **self.run(self.r.choice(outer), NEST=nest)})
        return a

    def run(self, s, **env):
        got = None
        try:
            got = subprocess.run([str(self.bin / s)], capture_output=True, text=True, timeout=60, cwd=self.root,
                                 env={"PATH": f"{self.bin}:/usr/bin:/bin", "PYTHONDONTWRITEBYTECODE": "1", "HOME": str(self.root), **env})
            x = json.loads(got.stdout)
            return {"n": x["n"], "v": x["v"], "sees": x["sees"], "data": x["data"], "code": got.returncode, "err": got.stderr[-200:]}
        except Exception as e:
            return {"n": "?", "v": 0, "sees": [], "data": [], "code": 0, "err": f"{err_name(e)} {e} {got.stderr[-300:] if got else ''}"}

    def spell(self, n):
        x = self.rec["display"][n]
        return self.r.choice([x, x, x.lower(), x.replace("-", "_"), x.replace("_", "-")])

    def op(self, o):
        self.load()
        env, k, q = self.env, o["k"], o["q"]
        dep = lambda: Dependency.parse(self.spell(q["n"]) + " " + self.spec(q))
        where = lambda: env.installation_target if o["app"] == "" else env.package_containers.container_of(self.spell(o["app"])).installation_target
        mode = self.r.choice([StoreMode.AUTO, StoreMode.AUTO, StoreMode.COPY])

        if k != "app" and o["app"] and env.package_containers.container_of(o["app"]) is None:
            return "skip", ""
        if k == "drop" and not any(key(p.name) == q["n"] and p.dist_info.is_user_requested() for p in where().site_packages.installed_packages()):
            return "skip", ""

        def do():
            if k == "app":
                env.package_containers.install(self.project(q["n"], q["lo"]) if o["form"] == "project" else dep(), mode, o["update"])
            elif k == "add":
                where().install([dep()], env.attached_repository)
            elif k == "drop":
                where().uninstall([self.spell(q["n"])])
            elif k == "remove":
                env.package_containers.container_of(self.spell(o["app"])).uninstall()
        try:
            with silent(), time_limit(60):
                do()
            return "ok", ""
        except (Exception, CaseTimeout) as e:
            return "error", f"{err_name(e)} {e}"[:200]


def play(rec):
    with tempfile.TemporaryDirectory() as td:
        rec = {**rec, "broken": "", "obs": [], "start": None}
        try:
            case = Case(rec, Path(td).resolve())
            rec["start"] = case.look()
        except Exception as e:
            return {**rec, "broken": f"{err_name(e)} {e}"[:300]}
        for o in rec["ops"]:
            out, err = case.op(o)
            try:
                with silent(), time_limit(120):
                    a = case.look()
            except (Exception, CaseTimeout) as e:
                a = {**rec["start"], "stray": ["?"], "why": f"{err_name(e)} {e}"[:200]}
            a["out"], a["err"] = out, err
            rec["obs"].append(a)
        return rec


pkm.config.concurrency_mode = "none"
if __name__ == "__main__":
    main(lambda recs: map(play, recs))
