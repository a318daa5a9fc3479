"""performs installations and removals on a site of light packages (distribution metadata only, no files)

input records: {W, st, ops: [op...], names?} - the state st is laid out on disk, then the operations run one after the other;
one record per operation is written, with the state of the site as a fresh look at the disk finds it"""
import os
import shutil
import tempfile
from dataclasses import replace
from pathlib import Path

from common import main, err_name, time_limit, silent
from packs import ver, dep_text
from pkm.api.dependencies.dependency import Dependency
from pkm.api.distributions.distinfo import DistInfo
from pkm.api.environments.environment import Environment
from pkm.api.environments.environment_builder import EnvironmentBuilder
from pkm.api.packages.package import Package, PackageDescriptor
from pkm.api.packages.package_installation import PackageInstallationTarget
from pkm.api.packages.package_installation_info import StoreMode, PackageInstallationInfo
from pkm.api.packages.site_packages import SitePackages
from pkm.api.repositories.repository import AbstractRepository
from pkm.api.versions.version import Version
from pkm.resolution.pubgrub import UnsolvableProblemException

key = PackageDescriptor.package_name_key


class Light(Package):
    """a package that is nothing but its distribution metadata"""

    def __init__(self, name, version, deps):
        self._d = PackageDescriptor(name, version)
        self._deps = deps

    @property
    def descriptor(self):
        return self._d

    def dependencies(self, target, extras=None):
        return [d for d in map(Dependency.parse, self._deps) if d.is_applicable_for(target.env, extras)]

    def is_compatible_with(self, env):
        return True

    def write(self, site: Path, request=None, mode=StoreMode.COPY):
        di = site / DistInfo.expected_dir_name(self._d)
        if di.exists():
            raise FileExistsError(str(di))
        di.mkdir()
        (di / "METADATA").write_text(
            f"Metadata-Version: 2.1\nName: {self.name}\nVersion: {self.version}\n"
            + "".join(f"Requires-Dist: {d}\n" for d in self._deps) + "\n")
        (di / "WHEEL").write_text("Wheel-Version: 1.0\nGenerator: light\nRoot-Is-Purelib: true\nTag: py3-none-any\n")
        (di / "RECORD").write_text(f"{di.name}/METADATA,,\n{di.name}/WHEEL,,\n{di.name}/RECORD,,\n")
        info = DistInfo.load(di)
        info.save_installation_info(PackageInstallationInfo(store_mode=mode))
        if request is not None:
            info.mark_as_user_requested(request)

    def install_to(self, target, user_request=None, store_mode=StoreMode.AUTO):
        self.write(Path(target.purelib), user_request, StoreMode.COPY if store_mode == StoreMode.AUTO else store_mode)


class Repo(AbstractRepository):
    def __init__(self, packages):
        super().__init__("light")
        self._packages = packages

    def _do_match(self, dependency, env):
        return [p for p in self._packages.get(dependency.package_name_key, ())
                if dependency.version_spec.allows_version(p.version)]


class World:
    def __init__(self, W):
        self.W = W
        self.names = W.get("names") or [f"p{i + 1}" for i in range(W["n"])]
        self.index = {key(n): i for i, n in enumerate(self.names)}
        self.packs = [[Light(name, ver(v), [dep_text(d) for d in W["deps"][i][j]]) for j, v in enumerate(W["vers"][i])]
                      for i, name in enumerate(self.names)]
        self.pool = [Dependency.parse(dep_text(d)) for d in W["pool"]]
        self.pool_text = [str(d) for d in self.pool]
        self.versions = [[str(ver(v)) for v in vs] for vs in W["vers"]]

    def repo(self, off):
        return Repo({key(n): [p for j, p in enumerate(self.packs[i]) if not off[i][j]] for i, n in enumerate(self.names)})

    def lay_out(self, st, site: Path):
        for i in range(self.W["n"]):
            if st["v"][i]:
                self.packs[i][st["v"][i] - 1].write(site, self.pool[st["r"][i] - 1] if st["r"][i] else None)

    def look(self, env, target):
        n = self.W["n"]
        st = {"v": [0] * n, "r": [0] * n}
        seen = set()
        for p in SitePackages(env, Path(target.purelib), Path(target.platlib)).installed_packages():
            i = self.index[p.name_key]
            st["v"][i] = self.versions[i].index(str(p.version)) + 1 if str(p.version) in self.versions[i] else -1
            if i in seen:
                st["v"][i] = -2
            seen.add(i)
            if (req := p.user_request) is not None:
                # the requests of this package first: the texts of two requests may coincide
                c = [k for k, t in enumerate(self.pool_text) if t == str(req)]
                st["r"][i] = c[0] + 1 if c else -1
        if len(list(Path(target.purelib).glob("*.dist-info"))) != len(seen):
            st["v"] = [-3] * n
        return st


_ENV = []


def environment():
    if not _ENV:
        _ENV.append(EnvironmentBuilder.create(Path(tempfile.mkdtemp()) / "env"))
    return _ENV[0]


def fresh_target(root: Path):
    env = environment()
    site = root / "site"
    site.mkdir(parents=True)
    return replace(env.installation_target, purelib=str(site), platlib=str(site), scripts=str(root / "bin"), data=str(root / "data"))


def spelled(world, op, i, j):
    """the name of a package as the operation spells it"""
    return (op.get("spell") or world.names)[i] if not op.get("spells") else op["spells"][j]


def perform(world, target, op):
    off = op["off"]
    if op["k"] == "install":
        deps = [world.pool[i - 1] for i in op["d"]]
        over = {o["name"]: Dependency.parse(dep_text(o["d"])) for o in op["over"]}
        ups = [spelled(world, op, p - 1, j) for j, p in enumerate(op["up"])]
        target.install(deps, world.repo(off), user_requested=op["user"], dependencies_override=over or None, updates=ups or None)
        return []
    names = [spelled(world, op, p - 1, j) for j, p in enumerate(op["u"])]
    if op["k"] == "remove":
        return [op["u"][0]] if target.force_remove(names[0]) else []
    res = target.uninstall(names)
    return [p for j, p in enumerate(op["u"]) if names[j] in res] + [99 for r in res if r not in names]


def run(recs):
    root = Path(tempfile.mkdtemp())
    env = environment()
    for k, rec in enumerate(recs):
        W = rec["W"]
        world = World(W)
        here = root / str(k)
        target = fresh_target(here)
        world.lay_out(rec["st"], Path(target.purelib))
        st = rec["st"]
        for op in rec["ops"]:
            out = {"W": {x: y for x, y in W.items()}, "st": st, "op": op, "out": "ok", "error": "", "ret": [], "orphans": [-1]}
            try:
                with time_limit(20), silent():
                    # the operation works on the same target object as the one before it, like a user of the api does
                    if rec.get("orphans"):
                        target.reload()
                        out["orphans"] = sorted(world.index[p.name_key] + 1 for p in target.site_packages.find_orphan_packages())
                    out["ret"] = perform(world, target, op)
            except UnsolvableProblemException as e:
                out["out"] = "unsolvable" if str(e) else "error"
            except BaseException as e:
                out["out"], out["error"], out["detail"] = "error", err_name(e), repr(e)[:300]
            with silent():
                st = out["st2"] = world.look(env, target)
            yield out
            if min(st["v"]) < 0 or min(st["r"]) < 0:
                break
        shutil.rmtree(here, ignore_errors=True)


if __name__ == "__main__":
    main(run)
