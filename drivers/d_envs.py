"""environments below a directory: made, used, exported from and removed

input records: {n, path, venv, pys, items, ops, seed} of specs/Envs.tla; every operation is answered and followed by a look at the disk"""
import hashlib
import json
import os
import random
import re
import shlex
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

from common import main, err_name, silent, time_limit, CaseTimeout
import kit_wheels
from pkm.api.dependencies.dependency import Dependency
from pkm.api.environments.environment import Environment
from pkm.api.environments.environment_builder import EnvironmentBuilder
from pkm.api.environments.environments_zoo import EnvironmentsZoo
from pkm.api.environments.installed_pythons_locator import InstalledPythonsLocator
from pkm.api.pkm import pkm
from pkm.api.versions.version_specifiers import VersionSpecifier
from pkm.repositories.file_system_repository import FileSystemRepositoryBuilder

REAL = 5
VERS = ["", "2.7.18", "3.6.9", "3.9.1", "3.9.10", "%d.%d.%d" % sys.version_info[:3], "3.13.0", "3.14.2"]
NAMES = [["", "env-a", "b.env", "C c"], ["", "x", "X2", "env"], ["", "py3", ".hidden", "bin"], ["", "long" * 30, "it's", "é x"]]
PACKS = ["", "tool-one", "tool-two"]
KEYS = ["", "tool_one", "tool_two"]
SCRIPTS = {1: {1: [1, 2], 2: [1]}, 2: {1: [3], 2: [3, 4]}}
SNAMES = ["", "s-one", "s-two", "s-three", "s-four"]
ODD = ["", ".", "..", ".zoo", "../outside", "nothing/..", "{outside}", "{zoo}", "./", "../{zooname}"]
MODULE = '''import json, os, sys
def run(name):
    here = os.path.dirname(os.path.abspath(__file__))
    root = here
    while not os.path.exists(os.path.join(root, "case-root")):
        root = os.path.dirname(root)
    with open(os.path.join(root, "out.json"), "w") as fd:
        json.dump({"script": name, "at": here, "v": VERSION, "args": sys.argv[1:], "inherit": "VERIF_INHERIT" in os.environ, "extra": "VERIF_EXTRA" in os.environ}, fd)
    os.write(1, NOISE)
    sys.exit(3)
'''
FAKE = '''import sys, platform
version, me = sys.argv[1], sys.argv[2]
sys.prefix = sys.exec_prefix = me + "-prefix"  # whatever is installed into it is not installed into the real one
parts = tuple(int(x) for x in version.split("."))
sys.version_info = parts + ("final", 0)
platform.python_version = lambda: version
platform.python_version_tuple = lambda: tuple(version.split("."))
sys.executable = me
args = sys.argv[3:]
if args[0] == "-c":
    code = args[1]
else:
    code = open(args[0]).read()
sys.argv = args
exec(compile(code, "<fake>", "exec"), {"__name__": "__main__"})
'''
WHEELS = None


def wheels():
    global WHEELS
    if WHEELS is None:
        WHEELS = Path(tempfile.mkdtemp(prefix="wheels-"))
        for p, vs in SCRIPTS.items():
            for v, ss in vs.items():
                noise = r'b"caf\xc3\xa9 \xff\xfe\n"' if v == 2 else r'b"hello\n"'
                code = f"VERSION = {v}\nNOISE = {noise}\n" + MODULE + "".join(f"def f{s}(): run({s})\n" for s in ss)
                kit_wheels.wheel(PACKS[p], f"{v}.0", {f"{KEYS[p]}/__init__.py": code}, repo=WHEELS,
                                  entry=[f"{SNAMES[s]} = {KEYS[p]}:f{s}" for s in ss if s != 4], data={f"scripts/{SNAMES[s]}": f"#!python\nimport {KEYS[p]}\n{KEYS[p]}.f{s}()\n" for s in ss if s == 4})
    return WHEELS


class Case:
    def __init__(self, rec, r):
        self.rec, self.r, self.n = rec, r, rec["n"]
        self.root = Path(tempfile.mkdtemp(prefix="envs-")).resolve()
        (self.root / "case-root").write_text("")
        self.zoo_path = self.root / r.choice(["zoo", "my zoo", "zoo.d"])
        self.zoo_path.mkdir()
        self.names = r.choice(NAMES)
        outside = self.root / "outside"
        (outside / "bin").mkdir(parents=True)
        (outside / "pyvenv.cfg").write_text("home = /usr/bin\ninclude-system-site-packages = false\n")
        (outside / "bin/python").symlink_to(sys.executable)
        (outside / "precious").write_text("x")
        self.repo = FileSystemRepositoryBuilder().build("repo", str(wheels()))
        self.kept, self.open = {}, []
        self.pythons()
        # commands look in the variables of this process
        self.vars = os.environ if r.random() < .5 or any(o["k"] in ("run", "exec") for o in rec["ops"]) else {"A": "1"}
        self.saved = dict(os.environ)
        self.path0 = {"unset": None, "empty": "", "set": "/orig/one:/orig/two"}[rec["path"]]
        self.venv0 = {"unset": None, "empty": "", "set": "/old/venv"}[rec["venv"]]
        for k, v in (("PATH", self.path0), ("VIRTUAL_ENV", self.venv0)):
            for m in {id(self.vars): self.vars, id(os.environ): os.environ}.values():
                m.pop(k, None)
                if v is not None:
                    m[k] = v
        os.environ["VERIF_INHERIT"] = "1"
        self.restart()

    def close(self):
        os.environ.clear()
        os.environ.update(self.saved)
        shutil.rmtree(self.root, ignore_errors=True)

    def restart(self):
        self.kept.clear()
        self.zoo = EnvironmentsZoo.load(self.zoo_path)
        self.found = None

    # ------------------------------------------------------------ interpreters
    def pythons(self):
        base = self.root / "pythons"
        (self.root / "fake.py").write_text(FAKE)
        self.dirs = [base / "one", base / "two"]
        for d in self.dirs:
            d.mkdir(parents=True)
        (base / "afile").write_text("")
        good = []
        for n, x in enumerate(self.rec["items"]):
            at = self.dirs[x["at"]]
            name = next(s for s in [f"python{i}" for i in ("", "3", "-3", f"3.{n}", f"2.{n}.1")] + [f"python{n + 10}"] if not os.path.lexists(at / s) and (s != "python" or x["plain"]))
            f = at / name
            me = 'exec "%s" "%s" %s "$0" "$@"\n' % (sys.executable, self.root / "fake.py", VERS[x["v"]])
            k = x["k"]
            if k == "dir":
                f.mkdir()
                continue
            if k == "dangling":
                f.symlink_to(self.root / "nowhere")
                continue
            if k == "link" and good:
                f.symlink_to(self.r.choice(good))
                continue
            if k == "shim" and good:
                f.write_text(f'#!/bin/sh\nexec "{self.r.choice(good)}" "$@"\n')
            elif k == "good":
                f.write_text("#!/bin/sh\n" + me)
                good.append(f)
            else:
                f.write_text({"fails": "#!/bin/sh\necho 'no such version' >&2\nexit 127\n", "junk": "#!/bin/sh\necho hello\n", "silent": "#!/bin/sh\nexit 0\n", "text": "not a program",
                              "gone": "#!/nowhere/at/all\n", "chatty": "#!/bin/sh\necho a\necho b\necho c\n", "bytes": "#!/bin/sh\nprintf '\\377\\376\\n\\377\\n'\n",
                              "dead": "#!/bin/sh\n" + me}.get(k, "#!/bin/sh\nexit 1\n"))
            f.chmod(0o644 if k == "dead" else 0o755)
        self.search = os.pathsep.join(map(str, [self.dirs[0], base / "missing", base / "afile", self.dirs[1], self.dirs[0]] if self.rec["items"] else self.dirs))

    def locator(self):
        """a process that looks for interpreters once"""
        if self.found is None:
            old = os.environ.get("PATH")
            os.environ["PATH"] = self.search
            try:
                loc = InstalledPythonsLocator()
                loc.all_installed
            finally:
                os.environ.pop("PATH")
                if old is not None:
                    os.environ["PATH"] = old
            self.found = loc
        pkm.installed_pythons = self.found
        return self.found

    # ------------------------------------------------------------ looks
    def path(self, e):
        return self.zoo_path / self.names[e]

    def env(self, e):
        if e not in self.kept:
            self.kept[e] = self.zoo.load_environment(self.names[e])
        return self.kept[e]

    def index(self, p):
        return next((e for e in range(1, self.n + 1) if Path(p) == self.path(e)), 99)

    def place(self, c):
        if c == str(self.zoo_path / ".zoo/bin"):
            return 0
        return next((e for e in range(1, self.n + 1) if c == str(self.path(e) / "bin")), 99)

    def tree(self):
        res = {}
        for d, dirs, files in os.walk(self.root):
            dirs[:] = [x for x in dirs if x != "__pycache__"]
            for x in dirs + files:
                f = os.path.join(d, x)
                if os.path.islink(f):
                    res[f] = "-> " + os.readlink(f)
                elif os.path.isdir(f):
                    res[f] = "dir"
                else:
                    with open(f, "rb") as fd:
                        res[f] = hashlib.md5(fd.read()).hexdigest()
        return res

    def changed(self, before, after):
        res = set()
        for f in set(before) | set(after):
            if before.get(f) == after.get(f):
                continue
            rel = Path(f).relative_to(self.root)
            if rel.name in ("env_introspection.json", "out.json", "broken-python") or (rel.name in ("pkm", "etc") and after.get(f) == "dir" and f not in before):
                continue
            if rel.parts[:1] == (self.zoo_path.name,) and len(rel.parts) > 1:
                e = next((e for e in range(1, self.n + 1) if rel.parts[1] == self.names[e]), None)
                if e:
                    res.add(e)
                    continue
                if rel.parts[1:] in ((".zoo",), (".zoo", "bin"), (".zoo", "shared")) and f not in before:
                    continue
                if rel.parts[1] == ".zoo" and (rel.parts[2:3] in ((), ("bin",)) or rel.parts[2:] == ("shared",)):
                    res.add(0)
                    continue
            res.add(90)
        return sorted(res)

    def kind(self, e):
        p = self.path(e)
        if not os.path.lexists(p):
            return "none"
        if not p.is_dir():
            return "file"
        if (p / "pyvenv.cfg").exists():
            return "env" if (p / "bin/python").exists() else "half"
        return "plain"

    def script_of(self, f):
        """the environment whose interpreter a script names"""
        lines = f.read_text(errors="replace").splitlines()
        line = lines[0][2:]
        if line == "/bin/sh":
            line = shlex.split(lines[1][len("'''exec'"):])[0]
        return self.index(line[:-len("/bin/python")]) if line.endswith("/bin/python") else 99

    def after(self):
        d = [self.kind(e) for e in range(1, self.n + 1)]
        zoo = EnvironmentsZoo.load(self.zoo_path)
        listed = [self.index(x.path) for x in zoo.list()]
        py, pk = [], []
        for e in range(1, self.n + 1):
            py.append(0)
            pk.append([0, 0])
            if d[e - 1] != "env":
                continue
            x = Environment(self.path(e))
            v = str(x.interpreter_version)
            py[-1] = VERS.index(v) if v in VERS else 99
            if py[-1] == REAL:
                have = {p.name_key: str(p.version) for p in x.site_packages.installed_packages()}
                pk[-1] = [int(float(have.pop(KEYS[p], "0"))) for p in (1, 2)]
                if have:
                    pk[-1] = [99, 99]
        binned = []
        for s in range(1, 5):
            f = self.zoo_path / ".zoo/bin" / SNAMES[s]
            if not os.path.lexists(f):
                binned.append(0)
            else:
                binned.append(self.script_of(f) if os.access(f, os.X_OK) else 99)
        path, venv = self.vars.get("PATH"), self.vars.get("VIRTUAL_ENV")
        comps = [c for c in (path or "").split(os.pathsep) if c]
        if self.path0 and comps[-2:] == self.path0.split(":"):
            comps = comps[:-2]
        elif self.path0:
            comps.append("lost")
        kind = lambda v: "unset" if v is None else "set" if v else "empty"
        active = 0 if venv == self.venv0 else self.index(venv)
        return {"d": d, "list": listed, "py": py, "pk": pk, "bin": binned, "path": kind(path), "places": [self.place(c) for c in comps], "venv": "env" if active else kind(venv), "active": active}

    # ------------------------------------------------------------ operations
    def isolated(self, e, o):
        env = self.env(e)
        t, p = env.installation_target, self.path(e)
        inside = all(Path(getattr(t, k)).is_relative_to(p) for k in ("purelib", "platlib", "scripts", "data"))
        if o["how"] == "match":
            return True
        got = json.loads(subprocess.run([str(p / "bin/python"), "-c", "import sys,sysconfig,json;print(json.dumps([sys.prefix,sysconfig.get_paths()['purelib'],sys.path]))"],
                                        capture_output=True, env={"HOME": str(self.root)}).stdout)
        sites = [x for x in got[2] if x.endswith("-packages")]
        return inside and got[0] == str(p) and got[1] == t.purelib and sites != [] and all(Path(x).is_relative_to(p) for x in sites)

    def process(self, o, f):
        out = self.root / "out.json"
        out.unlink(missing_ok=True)
        try:
            code = f()
        except FileNotFoundError:
            o["ran"] = {"out": "missing", "e": 0, "v": 0}
            return
        o["saw"] = ""
        if not out.exists():
            o["ran"] = {"out": "missing" if code in (77, 126, 127) else "broken" if code else "quiet", "e": 0, "v": 0}
            return
        x = json.loads(out.read_text())
        e = next((e for e in range(1, self.n + 1) if Path(x["at"]).is_relative_to(self.path(e))), 99)
        right = code == 3 and x["script"] == o["s"] and x["args"] == o["args"]
        o["ran"] = {"out": "ok" if right else "wrong", "e": e, "v": x["v"]}
        o["saw"] = {(True, False): "inherit", (False, True): "extra", (False, False): "empty"}.get((x["inherit"], x["extra"]), "both")

    def do(self, o):
        k, e, r = o["k"], o.get("e", 0), self.r
        if k == "create":
            if o["how"] == "build":
                EnvironmentBuilder.create(self.path(e), Path(sys.executable))
            elif o["how"] == "broken":
                f = self.root / "broken-python"
                f.write_text(r.choice(["#!/bin/sh\nexit 1\n", "#!/bin/sh\necho '{'\n", "#!/nowhere\n", "text"]))
                f.chmod(0o755)
                EnvironmentBuilder.create(self.path(e), f)
            else:
                self.locator()
                self.zoo.create_environment(self.names[e], VersionSpecifier.parse(o["spec"]["txt"]))
            o["isolated"] = self.isolated(e, o)
        elif k == "put":
            p = self.path(e)
            if o["how"] == "std":
                subprocess.run([sys.executable, "-m", "venv", "--without-pip", str(p)], check=True, env={"HOME": str(self.root), "PATH": "/usr/bin:/bin"})
            elif o["how"] == "file":
                p.write_text("x")
            else:
                (p / "sub").mkdir(parents=True)
                (p / "sub/notes").write_text("keep")
                if o["how"] == "half":
                    (p / "pyvenv.cfg").write_text("home = /usr/bin\n")
        elif k == "delete":
            self.zoo.delete_environment(self.names[e])
            self.kept.pop(e, None)
        elif k == "odd":
            name = r.choice(ODD).format(outside=self.root / "outside", zoo=self.zoo_path, zooname=self.zoo_path.name)
            o["name"] = name
            what = o["what"]
            if what == "delete":
                self.zoo.delete_environment(name)
            elif what == "create":
                self.zoo.create_environment(name, VersionSpecifier.parse("*"))
            else:
                self.zoo.load_environment(r.choice(["", ".", "..", ".zoo", "./", "nothing/.."]))
        elif k == "load":
            o["loaded"] = self.index(self.zoo.load_environment(self.names[e]).path)
        elif k == "install":
            env = self.env(e)
            env.install([Dependency.parse(f"{PACKS[o['p']]}=={o['v']}.0")], self.repo)
            if r.random() < .5:
                env.reload()
        elif k == "remove":
            env = self.env(e)
            env.uninstall([PACKS[o["p"]]])
            if r.random() < .5:
                env.reload()
        elif k == "export":
            self.zoo.export_script(self.names[e], SNAMES[o["s"]])
        elif k == "exportall":
            self.zoo.export_all_scripts(self.names[e], PACKS[o["p"]])
        elif k == "tidy":
            shutil.rmtree(self.zoo_path / ".zoo", ignore_errors=True)
        elif k == "enter":
            what = self.zoo if o["what"] == "zoo" else self.zoo.load_environment(self.names[e])
            cm = what.activate() if self.vars is os.environ else what.activate(self.vars)
            cm.__enter__()
            self.open.append(cm)
        elif k == "leave":
            cm = self.open.pop()
            if o["how"] == "raise":
                x = r.choice([ValueError, KeyboardInterrupt, SystemExit])()
                try:
                    swallowed = cm.__exit__(type(x), x, None)
                except BaseException as y:
                    if y is not x:
                        raise
                    swallowed = False
                if swallowed:
                    o["got"] = "swallowed"
            else:
                cm.__exit__(None, None, None)
        elif k == "restart":
            self.restart()
        elif k == "pythons":
            found = self.locator().match(VersionSpecifier.parse(o["spec"]["txt"]))
            o["found"] = [VERS.index(str(x.version)) if str(x.version) in VERS else 99 for x in found]
        elif k == "run":
            kw = {} if o["env"] == "inherit" else {"env": {"VERIF_EXTRA": "1"} if o["env"] == "extra" else {}}
            env = self.env(e)
            self.process(o, lambda: env.run_proc([SNAMES[o["s"]], *o["args"]], **kw).returncode)
        elif k == "exec":
            env = self.env(e)
            env.interpreter_version

            def go():
                pid = os.fork()
                if pid == 0:
                    try:
                        null = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(null, 1)
                        os.dup2(null, 2)
                        kw = {} if o["env"] == "inherit" else {"env": {"VERIF_EXTRA": "1"} if o["env"] == "extra" else {}}
                        args = [o["args"]] if o["args"] or r.random() < .5 else []
                        env.exec_proc(SNAMES[o["s"]], *args, **kw)
                        os._exit(78)
                    except FileNotFoundError:
                        os._exit(77)
                    except BaseException:
                        os._exit(79)
                return os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            self.process(o, go)
        elif k == "call":
            f = self.zoo_path / ".zoo/bin" / SNAMES[o["s"]]
            self.process(o, lambda: subprocess.run([str(f), *o["args"]], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env={"HOME": str(self.root)}).returncode)
        else:
            raise AssertionError(k)


def play(rec):
    r = random.Random(rec["seed"])
    case = Case(rec, r)
    try:
        for o in rec["ops"]:
            before = case.tree()
            o["got"] = "ok"
            try:
                with silent(), time_limit(60):
                    case.do(o)
            except CaseTimeout:
                o["got"] = "timeout"
            except BaseException as x:
                o["got"], o["why"] = "error", err_name(x) + ": " + str(x)[:200]
            o["changed"] = case.changed(before, case.tree())
            for k, v in (("isolated", False), ("loaded", 99), ("found", []), ("ran", {"out": "failed", "e": 0, "v": 0}), ("saw", "")):
                o.setdefault(k, v)
            try:
                with silent(), time_limit(60):
                    o["after"] = case.after()
            except BaseException as x:
                o["after"] = {"d": ["unknown"] * rec["n"], "list": [], "py": [0] * rec["n"], "pk": [[0, 0]] * rec["n"], "bin": [0] * 4, "path": "", "places": [], "venv": "", "active": 0, "why": repr(x)[:300]}
    finally:
        case.close()
    return rec


if __name__ == "__main__":
    pkm.config.concurrency_mode = "none"
    main(lambda recs: map(play, recs))
