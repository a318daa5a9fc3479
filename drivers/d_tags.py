"""environments of all platforms and the artifacts they choose

input records: {env, lists: [[artifact]], seed}; one output record per list"""
import json
import random
import shutil
import struct
import tempfile
import zipfile
from pathlib import Path

from common import main, err_name, silent
from pkm.api.environments.environment import Environment
from pkm.api.packages.package import PackageDescriptor
from pkm.api.packages.standard_package import AbstractPackage, PackageArtifact
from pkm.api.versions.version import Version
from pkm.api.versions.version_specifiers import VersionSpecifier

MACHINES = {"x86_64": (62, 2, 1, 0), "aarch64": (183, 2, 1, 0), "i686": (3, 1, 1, 0), "armv7l": (40, 1, 1, 0x05000400), "ppc64le": (21, 2, 1, 2), "s390x": (22, 2, 2, 0)}


def elf(arch, loader, base):
    machine, cls, data, flags = MACHINES[arch]
    e = "<" if data == 1 else ">"
    ident = struct.pack("4s5B7x", b"\x7fELF", cls, data, 1, 0, 0)
    word = "L" if cls == 1 else "Q"
    hsize = 16 + struct.calcsize(f"{e}2HI3{word}I6H")
    text = (loader or "").encode() + b"\0"
    if cls == 2:
        ph = lambda kind, off, size: struct.pack(f"{e}2I6Q", kind, 4, off, base + off, base + off, size, size, 1)
    else:
        ph = lambda kind, off, size: struct.pack(f"{e}8I", kind, off, base + off, base + off, size, size, 4, 1)
    psize = len(ph(0, 0, 0))
    heads = [(6, hsize, psize), (3 if loader else 1, None, len(text)), (1, 0, 64)]
    off = hsize + psize * len(heads)
    head = struct.pack(f"{e}2HI3{word}I6H", 3, machine, 1, 0, hsize, 0, flags, hsize, psize, len(heads), 0, 0, 0)
    return ident + head + b"".join(ph(k, off if o is None else o, s) for k, o, s in heads) + text


def data(env, root, r):
    os_, py = env["os"], env["py"]
    arch = env["arch"]
    binary = root / "interpreter"
    if os_ == "linux":
        real = {"x86_64": "i686", "aarch64": "armv7l"}.get(arch, arch) if env["bits"] == 32 else arch
        loader = root / "ld.so"
        if env["libc"] == "musl":
            loader.write_text(f"#!/bin/sh\nprintf 'musl libc ({real})\\nVersion {env['lv'][0]}.{env['lv'][1]}.{r.choice([0, 3])}\\nDynamic Program Loader\\n' >&2\nexit 1\n")
        else:
            loader.write_text(r.choice(["#!/bin/sh\necho 'ld.so: missing program name' >&2\nexit 127\n", "#!/bin/sh\nexit 0\n"]))
        loader.chmod(0o755)
        binary.write_bytes(elf(real, None if env["libc"] == "none" and r.random() < .5 else str(loader), r.choice([0, 0x8048000])))
        plat, system, sys_platform = f"linux-{arch}", "Linux", "linux"
    elif os_ == "mac":
        plat = f"macosx-{r.choice(['10.9', '11.0'] if arch == 'x86_64' else ['11.0', '11'])}-{r.choice([arch, 'universal2'])}"
        system, sys_platform = "Darwin", "darwin"
    else:
        plat, system, sys_platform = {"amd64": "win-amd64", "win32": "win32", "arm64": "win-arm64"}[arch], "Windows", "win32"
    machine = {"win": {"amd64": "AMD64", "win32": "AMD64", "arm64": "ARM64"}.get(arch, arch)}.get(os_, arch)
    mac = ".".join(map(str, env["mac"]))
    if os_ == "mac" and env["mac"][0] > 10 and r.random() < .5:
        mac = r.choice([mac + ".1", str(env["mac"][0])])
    conf = {}
    if env["libc"] == "glibc":
        conf["CS_GNU_LIBC_VERSION"] = f"glibc {env['lv'][0]}.{env['lv'][1]}"
    elif r.random() < .5:
        conf["CS_GNU_LIBC_VERSION"] = None
    names = ["stdlib", "platstdlib", "purelib", "platlib", "include", "scripts", "data"]
    paths = {k: str(root / "paths" / k) for k in names}
    version = ".".join(map(str, py))
    vars_ = {"Py_DEBUG": 1 if env["debug"] else (0 if os_ != "win" else None), "WITH_PYMALLOC": 1, "Py_UNICODE_SIZE": None,
             "SOABI": f"pypy{py[0]}{py[1]}-pp73" if env["impl"] == "pp" else f"cpython-{py[0]}{py[1]}"}
    suffixes = [".cp39-win_amd64.pyd", ".pyd"] if os_ == "win" else [".so"]
    if os_ == "win" and env["debug"]:
        suffixes = ["_d." + s.lstrip(".") for s in suffixes]
    return {
        "sysconfig": {"paths": paths, "paths_by_scheme": {k: paths for k in ("posix_user", "nt_user", "osx_framework_user", "posix_prefix")},
                      "vars": {k: v for k, v in vars_.items() if v is not None}, "platform": plat, "is_python_build": False},
        "sys": {"implementation": {"name": "pypy" if env["impl"] == "pp" else "cpython", "version": [*py, "final", 0]}, "version_info": [*py, "final", 0],
                "has_totalrefcount": env["debug"], "maxunicode": 0x10ffff, "maxsize": 2 ** 31 - 1 if env["bits"] == 32 else 2 ** 63 - 1,
                "executable": str(binary), "platform": sys_platform},
        "importlib": {"machinery": {"EXTENSION_SUFFIXES": suffixes}},
        "platform": {"system": system, "mac_ver": [mac if os_ == "mac" else "", ["", "", ""], arch if os_ == "mac" else ""], "machine": machine,
                     "python_implementation": "PyPy" if env["impl"] == "pp" else "CPython", "release": "5.0", "version": "#1", "python_version_tuple": [str(x) for x in py],
                     "python_version": version},
        "os": {"conf": conf, "name": "nt" if os_ == "win" else "posix", "bits": env["bits"]},
        "site": {"packages": [paths["purelib"]]}}


def text(x, r, n):
    ver = f"x{n}-1.0"
    if x["kind"] == "sdist":
        return ver + r.choice([".tar.gz", ".zip", ".tar.gz"])
    if x["kind"] == "junk":
        return ver + "-" + r.choice(["py3-none-manylinux_a_x86_64", "py3-none-macosx_x86_64", "pyx-none-any", "cp-none-any", "py3-unknown-any", "py3-none-beos", "jy3-none-any", "py3-none-manylinux_2_x86_64",
                                     "py3-none-linux", "py3-none-", "cp3x-abi3-any", "py3-none-musllinux_1_x86_64", "py3-none-macosx_a_b_x86_64"]) + ".whl"

    def version(v):
        return "".join(map(str, v))

    def platform(p):
        if p["k"] == "any":
            return "any"
        if p["k"] == "win":
            return "win32" if p["arch"] == "win32" else "win_" + p["arch"]
        if p["k"] == "linux":
            return "linux_" + p["arch"]
        if p["k"] == "manylinux" and r.random() < .5:
            old = {(2, 5): "manylinux1", (2, 12): "manylinux2010", (2, 17): "manylinux2014"}.get(tuple(p["v"]))
            if old:
                return f"{old}_{p['arch']}"
        return f"{p['k']}_{p['v'][0]}_{p['v'][1]}_{p['arch']}"

    def abi(a):
        return {"none": "none", "abi3": "abi3", "cp": f"cp{version(a['v'])}{a['f']}", "pypy": f"pypy{version(a['v'])}_pp73"}[a["k"]]

    i, a, p = [".".join(dict.fromkeys(f(y) for y in ys)) for f, ys in ((lambda i: i["n"] + version(i["v"]), x["is"]), (abi, x["as"]), (platform, x["ps"]))]
    return f"{ver}{r.choice(['', '', '-1', '-2abc'])}-{i}-{a}-{p}.whl"


def requires(rp, r):
    parts = []
    if rp["lo"]:
        parts.append(">=" + ".".join(map(str, rp["lo"])))
    if rp["hi"]:
        parts.append("<" + ".".join(map(str, rp["hi"])))
    if rp["ne"]:
        parts.append("!=" + ".".join(map(str, rp["ne"])) + ".*")
    r.shuffle(parts)
    return VersionSpecifier.parse(r.choice([",", ", "]).join(parts)) if parts else None


class Pack(AbstractPackage):
    def _retrieve_artifact(self, artifact):
        file = Path(tempfile.mkdtemp(dir=FILES)) / artifact.file_name
        with zipfile.ZipFile(file, "w") as z:
            z.writestr("x-1.0.dist-info/METADATA", f"Metadata-Version: 2.1\nName: x\nVersion: 1.0\nRequires-Dist: artifact-{artifact.other_info['n'] + 1}\n")
        return file


FILES = None


def ask(env, given, arts, files, pack):
    o = {"env": given, "arts": arts, "fits": [], "chosen": 0, "usable": False, "deps": 0, "err": "", "files": [f.file_name for f in files]}
    try:
        with silent():
            o["fits"] = [bool(Pack(pack.descriptor, [f]).is_compatible_with(env)) for f in files]
            got = pack.best_artifact_for(env)
            o["chosen"] = 0 if got is None else got.other_info["n"] + 1
            o["usable"] = bool(pack.is_compatible_with(env))
            if got is not None and got.is_binary():
                deps = pack.dependencies(env.installation_target)
                o["deps"] = int(deps[0].package_name.split("-")[1])
    except Exception as e:
        o["err"] = err_name(e)
    return o


def run(recs):
    global FILES
    FILES = tempfile.mkdtemp()
    try:
        yield from _run(recs)
    finally:
        shutil.rmtree(FILES, ignore_errors=True)


def _run(recs):
    before = []
    for rec in recs:
        r = random.Random(rec["seed"])
        root = Path(tempfile.mkdtemp())
        try:
            (root / "env" / "bin").mkdir(parents=True)
            (root / "env" / "pyvenv.cfg").write_text("home = /nowhere\ninclude-system-site-packages = false\n")
            (root / "data.json").write_text(json.dumps(data(rec["env"], root, r)))
            (root / "env" / "bin" / "python").write_text(f"#!/bin/sh\ncat {root}/data.json\n")
            (root / "env" / "bin" / "python").chmod(0o755)
            env = Environment(root / "env")
            desc = PackageDescriptor("x", Version.parse("1.0"))
            for arts in rec["lists"]:
                files = [PackageArtifact(text(x, r, n), requires(x["rp"], r), {"n": n}) for n, x in enumerate(arts)]
                pack = Pack(desc, list(files))
                yield ask(env, rec["env"], arts, files, pack)
                before.append((arts, files, pack))
            # other environments ask for the same packages
            for arts, files, pack in r.sample(before, min(3, len(before))):
                yield ask(env, rec["env"], arts, files, pack)
            before = before[-30:]
        finally:
            shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main(run)
