"""looking packages up in the repositories that are configured for a project, its group, an environment, a zoo and pkm itself

input records: {W, cfg, ops, seed} of specs/Lookup.tla; "look" and "list" operations are answered"""
import os
import random
import shutil
import tempfile
from pathlib import Path

from common import main, err_name, silent
from pkm.api.dependencies.dependency import Dependency
from pkm.api.environments.environment import Environment
from pkm.api.environments.environment_builder import EnvironmentBuilder
from pkm.api.packages.package import PackageDescriptor
from pkm.api.pkm import pkm
from pkm.api.projects.project import Project
from pkm.api.repositories.repositories_configuration import RepositoryInstanceConfig
from pkm.utils.properties import clear_cached_properties

key = PackageDescriptor.package_name_key
VERS = ["", "1.0", "2.0a1", "2.0", "3.0a1", "3.0"]
NAMES = [[], ["pk-x", "Pk_X", "pk.x"], ["other", "OTHER", "Other"], ["the-proj", "The_Proj"], ["sib"]]
NUMBER = {key(n): i for i, ns in enumerate(NAMES) for n in ns}
CTX = ("proj", "group", "env", "zoo", "glob")
ODD = {"r": "my repo", "s": "r.s"}


class Place:
    """where the contexts of all histories are, their configurations change"""

    def __init__(self):
        self.root = Path(tempfile.mkdtemp()).resolve()
        zoo = self.root / "zoo"
        zoo.mkdir()
        EnvironmentBuilder.create(zoo / "one")
        shutil.copytree(zoo / "one", self.root / "one", symlinks=True)
        (self.root / "files").mkdir()
        for v in VERS[1:]:
            (self.root / "files" / f"pk_x-{v}-py3-none-any.whl").touch()
        self.contents = {}

    def content(self, packages):
        k = tuple((x["p"], x["v"]) for x in packages)
        if k not in self.contents:
            self.contents[k] = d = self.root / f"c{len(self.contents) + 1}"
            d.mkdir()
            for p, v in k:
                (d / f"{key(NAMES[p][0]).replace('-', '_')}-{VERS[v]}-py3-none-any.whl").touch()
        return self.contents[k]


PLACE = None


class Run:
    def __init__(self, rec):
        self.W, self.r = rec["W"], random.Random(rec["seed"])
        self.odd = self.r.random() < .3
        W = self.W
        self.dirs = [PLACE.content(c) for c in W["content"]]
        self.work = PLACE.root / "work"
        shutil.rmtree(self.work, ignore_errors=True)
        self.proj, self.group = self.work / "group" / "proj", self.work / "group"
        self.proj.mkdir(parents=True)
        (self.group / "sib").mkdir()
        for d, n in ((self.proj, "the-proj"), (self.group / "sib", "sib")):
            (d / "pyproject.toml").write_text(f'[project]\nname = "{n}"\nversion = "1.0"\ndescription = ""\ndependencies = []\n'
                                              '[build-system]\nrequires = ["pkm"]\nbuild-backend = "pkm.api.buildsys"\n')
        if W["group"]:
            (self.group / "pyproject-group.toml").write_text('children = ["proj", "sib"]\n')
        self.zoo = PLACE.root / "zoo"
        self.env = (self.zoo if W["zoo"] else PLACE.root) / "one"
        (self.zoo / "env-zoo.toml").write_text(self.r.choice(["", "[package_sharing]\nenabled = false\n"]))
        (self.proj / "etc/pkm").mkdir(parents=True)
        (self.proj / "etc/pkm/environments.toml").write_text(f'[attached-env]\npath = "{self.env}"\n')
        self.home = {"proj": self.proj, "group": self.group, "env": self.env, "zoo": self.zoo, "glob": pkm.home}
        for c in CTX:
            file = self.home[c] / "etc/pkm/repositories.toml"
            file.unlink(missing_ok=True)
            text = self.text(rec["cfg"][c])
            if text or c == "glob":
                file.parent.mkdir(parents=True, exist_ok=True)
                file.write_text(text)
        self.restart()

    def name(self, n):
        return ODD.get(n, n) if self.odd else n

    def spelled(self, p):
        return self.r.choice(NAMES[p])

    def definition(self, c):
        if c > len(self.dirs):
            return "pypi", {"url": f"https://h{c}.example/pypi", "publish-url": f"https://h{c}.example/up"}
        return "file-system", {"path": str(self.dirs[c - 1])}

    def text(self, cfg):
        lines = []
        if cfg["inh"] != "context" or self.r.random() < .5:
            lines.append(f'inheritance = "{cfg["inh"]}"')
        for y in cfg["repos"]:
            t, args = self.definition(y["c"])
            lines += [f'[repos."{self.name(y["n"])}"]', f'type = "{t}"', *(f'{k} = "{v}"' for k, v in args.items())]
            if y["b"]:
                lines.append("bind-only = true")
        if cfg["binds"]:
            lines.append("[package-bindings]")
            for y in cfg["binds"]:
                if y["n"]:
                    lines.append(f'"{self.spelled(y["p"])}" = "{self.name(y["n"])}"')
            for y in cfg["binds"]:
                if not y["n"]:
                    t, args = self.definition(y["c"])
                    lines += [f'[package-bindings."{self.spelled(y["p"])}"]', f'type = "{t}"', *(f'{k} = "{v}"' for k, v in args.items())]
        return "\n".join(lines) + "\n" if lines else ""

    def restart(self):
        clear_cached_properties(pkm)
        project = Project.load(self.proj)
        env = Environment(self.env)
        self.ctx = {"proj": project, "group": project.group, "env": env, "zoo": env.zoo, "glob": pkm}
        self.plain = env

    def do(self, o):
        man = self.ctx[o["ctx"]].repository_management if o.get("ctx") else None
        k = o["k"]
        if k == "restart":
            self.restart()
        elif k == "add":
            t, args = self.definition(o["c"])
            man.add_repository(self.name(o["n"]), t, args, o["b"])
        elif k == "bad":
            man.add_repository(self.name(o["n"]), *self.r.choice([("nothing", {}), ("file-system", {"way": "x"})]))
        elif k == "remove":
            man.remove_repository(self.name(o["n"]))
        elif k == "bind":
            if o["n"]:
                to = self.name(o["n"])
            else:
                t, args = self.definition(o["c"])
                to = RepositoryInstanceConfig(t, True, args)
            man.register_bindings([self.spelled(o["p"])], to)
        elif k == "unbind":
            man.register_bindings([self.spelled(o["p"])], None)
        elif k == "list":
            by_path = {str(d): i + 1 for i, d in enumerate(self.dirs)}

            def number(cfg):
                return by_path[cfg.args["path"]] if cfg.type == "file-system" else int(cfg.args["url"].split(".")[0].split("h")[-1])

            back = {self.name(n): n for n in ("r", "s", "t", "u")}
            o["all"] = [{"n": back[n], "c": number(cfg)} for n, cfg in man.all_repositories()]
            pubs = man.publishable_repositories()
            o["pubs"] = [{"n": back[n] if p.repository_name == n else "other", "c": int(p._publish_url.split(".")[0].split("h")[-1])}  # noqa
                         for n, p in pubs.items()]
            for n, cfg in man.all_repositories():
                if (man.publisher_for(n) is not None) != (n in pubs):
                    o["pubs"].append({"n": "?", "c": 0})

    def look(self, o):
        repo = self.ctx[o["ctx"]].attached_repository
        for g in o["got"]:
            d = g["dep"]
            n, g["err"], g["pkgs"] = self.spelled(d["p"]), "", []
            if d["url"] == "file":
                text = f"{n} @ file://{PLACE.root}/files/pk_x-{VERS[d['v']]}-py3-none-any.whl"
            elif d["url"]:
                text = f"{n} @ odd://host/{n}.whl"
            else:
                text = n + (f"=={VERS[d['v']]}" if d["v"] else "")
            try:
                g["pkgs"] = [self.pack(p) for p in repo.match(self.r.choice([text, Dependency.parse(text)]), self.plain)]
            except Exception as e:
                import traceback
                g["err"], g["trace"] = err_name(e), traceback.format_exc()[-1200:]

    def pack(self, p):
        if isinstance(p, Project):
            src = {self.proj: 100, self.group / "sib": 101}.get(p.path, 0)
        else:
            where = Path(p._dist._wheel)  # noqa
            src = 200 if where.parent == PLACE.root / "files" else next((i + 1 for i, d in enumerate(self.dirs) if d == where.parent), 0)
        return {"p": NUMBER.get(p.name_key, 0), "v": VERS.index(str(p.version)) if str(p.version) in VERS else 0, "src": src}


def run(recs):
    global PLACE
    PLACE = Place()
    try:
        for rec in recs:
            with silent():
                x = Run(rec)
                for o in rec["ops"]:
                    o["err"] = ""
                    try:
                        x.look(o) if o["k"] == "look" else x.do(o)
                    except Exception as e:
                        import traceback
                        o["err"], o["trace"] = err_name(e), traceback.format_exc()[-1200:]
                        if o["k"] == "look":
                            for g in o["got"]:
                                g["err"], g["pkgs"] = o["err"], []
            yield rec
    finally:
        shutil.rmtree(PLACE.root, ignore_errors=True)


if __name__ == "__main__":
    main(run)
