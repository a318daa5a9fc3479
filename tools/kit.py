"""little helpers of the demonstrations: wheels, a repository and an installation target below the current directory"""
import base64, hashlib, os, zipfile
from dataclasses import replace
from pathlib import Path

ROOT = Path.cwd()


def digest(data):
    return base64.urlsafe_b64encode(hashlib.sha256(data).digest()).rstrip(b"=").decode()


def wheel(name, version, files=None, deps=(), entry=(), repo=None, data=None, hashes=None):
    repo = Path(repo or ROOT / "repo")
    repo.mkdir(parents=True, exist_ok=True)
    key = name.replace("-", "_").lower()
    info = f"{key}-{version}.dist-info"
    fs = {k: v.encode() for k, v in (files if files is not None else {f"{key}/__init__.py": f"V = '{version}'\n"}).items()}
    for k, v in (data or {}).items():
        fs[f"{key}-{version}.data/{k}"] = v.encode()
    fs[f"{info}/METADATA"] = (f"Metadata-Version: 2.1\nName: {name}\nVersion: {version}\n"
                              + "".join(f"Requires-Dist: {d}\n" for d in deps) + "\n").encode()
    fs[f"{info}/WHEEL"] = b"Wheel-Version: 1.0\nGenerator: demo\nRoot-Is-Purelib: true\nTag: py3-none-any\n"
    if entry:
        fs[f"{info}/entry_points.txt"] = ("[console_scripts]\n" + "\n".join(entry) + "\n").encode()
    rec = "".join(f"{k},sha256={(hashes or {}).get(k) or digest(v)},{len(v)}\n" for k, v in fs.items()) + f"{info}/RECORD,,\n"
    fs[f"{info}/RECORD"] = rec.encode()
    p = repo / f"{key}-{version}-py3-none-any.whl"
    with zipfile.ZipFile(p, "w") as z:
        for k, v in fs.items():
            z.writestr(k, v)
    return p


def repository(path=None):
    from pkm.repositories.file_system_repository import FileSystemRepositoryBuilder
    return FileSystemRepositoryBuilder().build("repo", str(path or ROOT / "repo"))


def target(name="site"):
    from pkm.api.environments.environment_builder import EnvironmentBuilder
    from pkm.api.pkm import pkm
    pkm.config.concurrency_mode = "none"
    env = EnvironmentBuilder.create(ROOT / (name + "-env"))
    r = ROOT / name
    for d in ("lib", "bin", "share"):
        (r / d).mkdir(parents=True)
    return replace(env.installation_target, purelib=str(r / "lib"), platlib=str(r / "lib"), scripts=str(r / "bin"), data=str(r / "share"),
                   include=str(r / "include"), platinclude=str(r / "include"), stdlib=str(r / "std"), platstdlib=str(r / "std"))


def dep(text):
    from pkm.api.dependencies.dependency import Dependency
    return Dependency.parse(text)


def installed(t):
    t.reload()
    return {p.name_key: str(p.version) for p in t.site_packages.installed_packages()}


def tree(t):
    r = Path(t.purelib).parent
    return {str(p.relative_to(r)): (p.read_bytes() if p.is_file() else None) for p in r.rglob("*")}
