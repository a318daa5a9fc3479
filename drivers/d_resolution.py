"""solves resolution problems: directly by the solver ("raw") or through resolve_dependencies ("full")"""
from common import main, err_name, time_limit, silent
from packs import ver, spec, dep_text
from pkm.api.dependencies.dependency import Dependency
from pkm.api.packages.package import Package, PackageDescriptor
from pkm.api.repositories.repository import AbstractRepository
from pkm.api.versions.version import Version
from pkm.resolution.dependency_resolver import resolve_dependencies
from pkm.resolution.pubgrub import Solver, Problem, Term, MalformedPackageException, UnsolvableProblemException


class Raw(Problem):
    def __init__(self, P):
        self.P = P
        self.vers = [[ver(v) for v in vs] for vs in P["vers"]]
        # the raw problem is about a few packages: the names say which
        self.over = {o["p"]: o["d"] for o in P["over"]}

    def terms(self, deps):
        return [Term(f"p{d['q']}", spec(d["s"])) for d in (self.over.get(d["q"], d) for d in deps if d["on"])]

    def get_dependencies(self, package, version):
        if package == "root":
            return self.terms(self.P["root"])
        p = int(package[1:]) - 1
        i = self.vers[p].index(version)
        if self.P["bad"][p][i]:
            raise MalformedPackageException(f"{package} {version}")
        return self.terms(self.P["deps"][p][i])

    def get_versions(self, package):
        return [Version.parse("1.0")] if package == "root" else list(self.vers[int(package[1:]) - 1])

    def has_version(self, package, version):
        return version in self.get_versions(package)


class Pack(Package):
    def __init__(self, name, version, deps, bad, compatible=True):
        self._d = PackageDescriptor(name, version)
        self._deps, self._bad, self._compatible = deps, bad, compatible

    @property
    def descriptor(self):
        return self._d

    def dependencies(self, target, extras=None):
        if self._bad:
            raise [ValueError, IOError][len(str(self.version)) % 2]("malformed metadata")
        ds = [Dependency.parse(t) for t in self._deps]
        return [d for d in ds if d.is_applicable_for(target.env, extras)]

    def is_compatible_with(self, env):
        return self._compatible

    def install_to(self, *_, **__):
        ...


class Repo(AbstractRepository):
    def __init__(self, packages):
        super().__init__("in-memory")
        self._packages = packages

    def _do_match(self, dependency, env):
        return [p for p in self._packages.get(dependency.package_name_key, ())
                if dependency.version_spec.allows_version(p.version)]


class Env:
    markers = {"python_version": "3.12", "sys_platform": "linux", "os_name": "posix"}
    interpreter_version = Version.parse("3.12.3")


class Target:
    env = Env()


def full(P):
    key = PackageDescriptor.package_name_key
    packs = {}
    for i, name in enumerate(P["names"]):
        packs[key(name)] = [
            Pack(name, ver(v), [dep_text(d) for d in P["deps"][i][j]], P["bad"][i][j]) for j, v in enumerate(P["vers"][i])]
        for v in P.get("incompatible", [[]] * P["n"])[i]:
            packs[key(name)].insert(0, Pack(name, ver(v), [], False, False))
    packs[key("the request")] = [Pack("the request", Version.parse("1"), [dep_text(d) for d in P["root"]], False)]
    over = {o["name"]: Dependency.parse(dep_text(o["d"])) for o in P["over"]}
    res = resolve_dependencies(Dependency.parse("the-request == 1"), Target(), Repo(packs), over)
    return [(key(p.name), p.version) for p in res]


def run(recs):
    for r in recs:
        P = r["P"]
        out = {"kind": r["kind"], "P": P, "out": "error", "error": "", "sel": [0] * P["n"], "twice": False}
        try:
            with time_limit(20), silent():
                if r["kind"] == "raw":
                    sel = [(k, v) for k, v in Solver(Raw(P), "root").solve().items() if k != "root"]
                    index = {f"p{i + 1}": i for i in range(P["n"])}
                else:
                    key = PackageDescriptor.package_name_key
                    sel = [s for s in full(P) if s[0] != key("the request")]
                    index = {key(n): i for i, n in enumerate(P["names"])}
            out["out"] = "solved"
            out["twice"] = len({k for k, _ in sel}) < len(sel)
            for k, v in sel:
                i = index[k]
                vs = [str(ver(x)) for x in P["vers"][i]]
                out["sel"][i] = vs.index(str(v)) + 1 if str(v) in vs else -1
        except UnsolvableProblemException as e:
            out["out"] = "unsolvable" if str(e) else "error"
        except BaseException as e:
            out["error"] = err_name(e)
            out["detail"] = repr(e)[:200]
        yield out


if __name__ == "__main__":
    main(run)
