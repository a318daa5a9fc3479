"""projects built: wheels, source distributions, editable wheels, metadata

input records: {p (the project of specs/Build.tla with the text of its configuration), ops, seed}; what every operation made is read
by other readers than pkm's (zipfile, tarfile, email, importlib.metadata, packaging, tomllib)"""
import base64
import email
import hashlib
import itertools
import json
import os
import random
import re
import shutil
import tarfile
import tempfile
import tomllib
import zipfile
from email.utils import getaddresses
from importlib import metadata as im
from pathlib import Path

from common import main, err_name, silent, time_limit, CaseTimeout
from packaging.requirements import Requirement
from packaging.specifiers import SpecifierSet
from packaging.utils import canonicalize_name, parse_wheel_filename, parse_sdist_filename
from packaging.version import Version as PVersion
from pkm.api.distributions.distinfo import DistInfo
from pkm.api.environments.environment import Environment
from pkm.api.projects.project import Project
from pkm.api.versions.version import Version

NO_META = {"ok": False, "err": "", "name": "", "version": "", "summary": "", "text": "", "type": "", "keywords": [], "author": [], "author_email": [], "maintainer": [], "maintainer_email": [], "license": "",
           "classifiers": [], "urls": [], "extras": [], "python": [], "deps": []}
NO_WHEEL = {"ok": False, "err": "", "named": False, "name": "", "version": "", "rawname": "", "rawversion": "", "tags": [], "pythons": [], "platform": "", "dist": {"name": "", "version": "", "dir": ""},
            "header": {"wheel": "", "purelib": "", "tags": []}, "all": [], "recorded": [], "wrong": [], "entry": [], "license": "", "meta": NO_META, "files": [], "links": [], "pths": []}
NO_SDIST = {"ok": False, "err": "", "named": False, "name": "", "version": "", "stem": "", "tops": [], "meta": NO_META, "leaves": [], "wheel": NO_WHEEL, "editable": NO_WHEEL}


WITNESSES = ["0.9", "1.0", "1.2.2", "1.2.3", "1.3", "1.4", "1.4.1", "1.5", "1.9", "2.0", "2.1", "3.0", "3.1"]
PYTHONS = ["2.7", "3.0", "3.6.5", "3.7", "3.8", "3.8.1", "3.9", "3.10", "3.11", "3.12", "3.12.9", "3.13", "3.14", "4.0", "4.1"]


def bare(r):
    q = Requirement(str(r))
    q.marker = None
    # what a specifier means is the versions that it admits
    return canonicalize_name(q.name) + ("[" + ",".join(sorted(q.extras)) + "]" if q.extras else "") + " " + ",".join(v for v in WITNESSES if q.specifier.contains(v))


def lines(text):
    """a text that may be folded into a header"""
    return "\n".join(x.strip() for x in (text or "").strip().splitlines())


def subsets(extras):
    return [list(c) for n in range(len(extras) + 1) for c in itertools.combinations(extras, n)][:8]


def contacts(values):
    return [{"name": n, "email": m} for n, m in getaddresses(values)] if values else []


def read_meta(data, extras):
    res = json.loads(json.dumps(NO_META))
    try:
        m = email.message_from_string(data.decode("utf-8"))
        known = {"metadata-version", "name", "version", "summary", "description-content-type", "keywords", "author", "author-email", "maintainer", "maintainer-email", "license", "requires-python"}
        if any(len(m.get_all(k)) > 1 for k in m.keys() if k.lower() in known) or "=?" in "".join(str(v) for v in m.values()) or m["Metadata-Version"] not in ("2.1", "2.2", "2.3"):
            raise ValueError("a field is there twice or encoded")
        reqs = [Requirement(x) for x in m.get_all("Requires-Dist", [])]
        spec = SpecifierSet(m.get("Requires-Python", ""))
        res.update(name=canonicalize_name(m["Name"]), version=str(PVersion(m["Version"])), summary=m.get("Summary", ""), text=(m.get_payload() or m.get("Description", "")).strip(),
                   type=m.get("Description-Content-Type", "").split(";")[0].strip(), keywords=[k.strip() for k in m.get("Keywords", "").split(",") if k.strip()],
                   author=[a.strip() for a in m.get("Author", "").split(",") if a.strip()], maintainer=[a.strip() for a in m.get("Maintainer", "").split(",") if a.strip()],
                   author_email=contacts([m["Author-email"]] if m["Author-email"] else []), maintainer_email=contacts([m["Maintainer-email"]] if m["Maintainer-email"] else []),
                   license=lines(m.get("License", "")), classifiers=m.get_all("Classifier", []), urls=[dict(zip(("label", "url"), (x.strip() for x in u.split(",", 1)))) for u in m.get_all("Project-URL", [])],
                   extras=[canonicalize_name(x) for x in m.get_all("Provides-Extra", [])], python=[k for k in range(6, 15) if spec.contains(f"3.{k}.5")],
                   deps=[{"extras": s, "reqs": sorted({bare(q) for q in reqs if not q.marker or any(q.marker.evaluate({"extra": e}) for e in s or [""])})} for s in subsets(extras)], ok=True)
        for u in res["urls"]:
            u.setdefault("url", "")
    except Exception as e:
        res["err"] = f"{err_name(e)} {e}"[:200]
    return res


def read_entry(data):
    # what importlib.metadata makes of entry_points.txt
    return [{"group": e.group, "name": e.name, "value": re.sub(r"\s", "", e.value)} for e in im.EntryPoints._from_text(data.decode("utf-8"))]


class Case:
    def __init__(self, rec, root):
        self.rec, self.root, self.dir = rec, root, root / "pro ject"
        self.ids, self.r = {}, random.Random(rec["seed"])
        self.dir.mkdir()
        self.project = None
        self.extras = [g["extra"] for g in rec["p"]["groups"]]
        for f in rec["p"]["files"]:
            self.write(f["path"], f["id"])
        for k, t in (("readme", "raw"), ("license", "raw")):
            if rec["p"][k]["path"]:
                path = self.dir.joinpath(*rec["p"][k]["path"])
                path.parent.mkdir(parents=True, exist_ok=True)
                path.write_text(rec["p"][k][t], encoding="utf-8")
                self.ids[self.digest(path.read_bytes())] = next(f["id"] for f in rec["p"]["files"] if f["path"] == rec["p"][k]["path"])
        (self.dir / "pyproject.toml").write_text(rec["p"]["toml"], encoding="utf-8")

    @staticmethod
    def digest(data):
        return hashlib.sha256(data).hexdigest()

    def write(self, path, i):
        file = self.dir.joinpath(*path)
        file.parent.mkdir(parents=True, exist_ok=True)
        rr = random.Random(f"{self.rec['seed']}-{i}")
        data = b"# %d\n" % i + bytes(rr.randrange(256) for _ in range(rr.choice([0, 3, 60, 5000]))) * rr.choice([1, 1, 20])
        if rr.random() < .3:
            data = data.replace(b"\n", b"\r\n")
        file.write_bytes(data)
        self.ids[self.digest(data)] = i
        u = rr.random()
        if u < .15:
            os.utime(file, (0, 0))
        elif u < .25:
            file.chmod(0o755)
        elif u < .3:
            file.chmod(0o444)

    def look(self):
        """what is in the project, but for its distributions and configuration"""
        return {f.relative_to(self.dir).as_posix(): self.digest(f.read_bytes()) for f in self.dir.rglob("*") if f.is_file() and f.relative_to(self.dir).parts[0] != "dist"}

    def dist(self):
        d = self.dir / "dist"
        # a version is there if both of its distributions are
        res = []
        for v in (sorted(d.iterdir()) if d.is_dir() else []):
            names = sorted(x.name for x in v.iterdir()) if v.is_dir() else None
            if names == []:
                continue
            ok = names and len(names) == 2 and names[0].endswith(".whl") + names[1].endswith(".whl") == 1 and names[0].endswith(".tar.gz") + names[1].endswith(".tar.gz") == 1
            if v.is_file() and [v.name] in [f["path"][1:] for f in self.rec["p"]["files"] if f["path"][0] == "dist"]:
                continue
            res.append(v.name if ok else "odd " + v.name)
        return res

    def load(self, fresh):
        if fresh or self.project is None:
            self.project = Project.load(self.dir)
        return self.project

    def read_wheel(self, path):
        res = json.loads(json.dumps(NO_WHEEL))
        try:
            with zipfile.ZipFile(path) as z:
                if z.testzip():
                    raise ValueError("bad zip")
                names = [n for n in z.namelist() if not n.endswith("/")]
                data = {n: z.read(n) for n in names}
            try:
                n, v, _, tags = parse_wheel_filename(path.name)
                rn, rv, py, abi, plat = path.name[:-4].split("-")
                res.update(named=True, name=str(n), version=str(v), rawname=rn, rawversion=rv, tags=sorted(f"{t.interpreter}-{t.abi}-{t.platform}" for t in tags), platform=f"{abi}-{plat}",
                           pythons=[{"major": int(x[2]), "minor": int(x[3:] or -1)} for x in py.split(".") if re.fullmatch(r"py\d+", x)])
            except Exception as e:
                res["err"] = f"{err_name(e)} {e}"
            infos = {n.split("/")[0] for n in names if n.split("/")[0].endswith(".dist-info")}
            info = infos.pop() if len(infos) == 1 else "none"
            dn, _, dv = info[:-len(".dist-info")].partition("-")
            res["dist"] = {"name": dn, "version": dv, "dir": info}
            res["all"] = [n.split("/") for n in names]
            header = email.message_from_string(data[f"{info}/WHEEL"].decode())
            res["header"] = {"wheel": header["Wheel-Version"] or "", "purelib": (header["Root-Is-Purelib"] or "").lower(), "tags": header.get_all("Tag", [])}
            for line in data[f"{info}/RECORD"].decode("utf-8").splitlines():
                import csv
                name, sig, size = next(csv.reader([line]))
                res["recorded"].append(name.split("/"))
                if name in data and name != f"{info}/RECORD":
                    algo, _, want = sig.partition("=")
                    if base64.urlsafe_b64encode(hashlib.new(algo, data[name]).digest()).rstrip(b"=").decode() != want or int(size) != len(data[name]):
                        res["wrong"].append(name)
            res["entry"] = read_entry(data.get(f"{info}/entry_points.txt", b""))
            res["license"] = lines(data.get(f"{info}/LICENSE", b"").decode("utf-8"))
            res["meta"] = read_meta(data[f"{info}/METADATA"], self.extras)
            res["files"] = [{"path": n.split("/"), "id": self.ids.get(self.digest(data[n]), -1)} for n in names if n.split("/")[0] != info]
            res["pths"] = [n for n in names if n.endswith(".pth") and "/" not in n]
            for n in res["pths"]:
                for line in data[n].decode("utf-8").splitlines():
                    if line.strip():
                        try:
                            res["links"].append(list(Path(line.strip()).resolve().relative_to(self.linkroot).parts))
                        except ValueError:
                            res["links"].append(["outside", line.strip()])
            for f in res["files"]:
                if f["path"] == res["pths"]:
                    f["id"] = 0
            res["ok"] = True
        except Exception as e:
            res["err"] = f"{err_name(e)} {e}"[:200]
        return res

    def leaves(self, data):
        out = []

        def walk(key, v):
            if isinstance(v, dict):
                for k, x in v.items():
                    walk(f"{key}.{k}" if key else k, x)
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    walk(f"{key}[{i}]", x)
            else:
                if re.match(r"project\.(dependencies|optional-dependencies)|build-system\.requires", key):
                    q = Requirement(v)
                    v = bare(v) + (" ; " + str(q.marker) if q.marker else "")
                elif key == "project.version":
                    v = str(PVersion(v))
                elif key == "project.requires-python":
                    v = ",".join(x for x in PYTHONS if SpecifierSet(v).contains(x))
                elif key == "project.name":
                    v = canonicalize_name(v)
                elif re.match(r"project\.(scripts|gui-scripts|entry-points)", key):
                    v = re.sub(r"\s", "", v)
                out.append({"key": key, "val": str(v)})
        walk("", tomllib.loads(data.decode("utf-8")))
        return out

    def build(self, make):
        """(path or None, error)"""
        try:
            with silent(), time_limit(60):
                return make(), ""
        except (Exception, CaseTimeout) as e:
            return None, f"{err_name(e)} {e}"[:200]

    def wheel(self, make, linkroot=None):
        self.linkroot = (linkroot or self.dir).resolve()
        path, err = self.build(make)
        return self.read_wheel(path) if path else {**NO_WHEEL, "err": err}

    def sdist(self, make):
        path, err = self.build(make)
        if not path:
            return {**NO_SDIST, "err": err}
        res = json.loads(json.dumps(NO_SDIST))
        try:
            try:
                n, v = parse_sdist_filename(path.name)
                res.update(named=True, name=str(n), version=str(v))
            except Exception as e:
                res["err"] = f"{err_name(e)} {e}"
            res["stem"] = path.name[:-len(".tar.gz")]
            to = Path(tempfile.mkdtemp(dir=self.root))
            with tarfile.open(path, "r:gz") as t:
                names = [x.name for x in t.getmembers()]
                if any(n.startswith("/") or ".." in n.split("/") for n in names):
                    raise ValueError("path")
                t.extractall(to, filter="data")
            res["tops"] = sorted({n.split("/")[0] for n in names})
            top = to / res["tops"][0]
            res["meta"] = read_meta((top / "PKG-INFO").read_bytes(), self.extras)
            res["leaves"] = self.leaves((top / "pyproject.toml").read_bytes())
            out = Path(tempfile.mkdtemp(dir=self.root))
            res["wheel"] = self.wheel(lambda: Project.load(top).build_wheel(out))
            res["editable"] = self.wheel(lambda: Project.load(top).build_wheel(out / "e", editable=True), top)
            res["ok"] = True
        except Exception as e:
            res["err"] = f"{err_name(e)} {e}"[:200]
        return res

    def meta(self, make):
        path, err = self.build(make)
        if not path:
            return {**NO_META, "err": err}, []
        try:
            return read_meta((path / "METADATA").read_bytes(), self.extras), read_entry((path / "entry_points.txt").read_bytes() if (path / "entry_points.txt").exists() else b"")
        except Exception as e:
            return {**NO_META, "err": f"{err_name(e)} {e}"[:200]}, []

    def deps(self, project):
        """what pkm itself says the project and its wheel need"""
        res = json.loads(json.dumps(NO_META))
        try:
            env, target = ENV, ENV.installation_target
            out = Path(tempfile.mkdtemp(dir=self.root))
            info = DistInfo.load(project.build_wheel(out, only_meta=True)).load_metadata_cfg()
            for s in subsets(self.extras):
                got = sorted({bare(d.__class__(d.package_name, d.version_spec, d.extras)) for d in project.dependencies(target, list(s))})
                read = sorted({bare(d.__class__(d.package_name, d.version_spec, d.extras)) for d in info.dependencies if d.is_applicable_for(env, list(s))})
                res["deps"] += [{"extras": s, "reqs": got}, {"extras": s, "reqs": read}]
            spec = project.config.project.requires_python
            res["python"] = [k for k in range(6, 15) if spec.allows_version(Version.parse(f"3.{k}.5")) and info.required_python_spec.allows_version(Version.parse(f"3.{k}.5"))]
            res["ok"] = True
        except Exception as e:
            res["err"] = f"{err_name(e)} {e}"[:200]
        return res

    def op(self, o):
        a = {"wheel": NO_WHEEL, "sdist": NO_SDIST, "meta": NO_META, "entry": [], "dist": [], "touched": [], "version": "", "leaves": []}
        k = o["k"]
        if k == "add":
            self.write(o["path"], o["id"])
            return a
        if k == "del":
            file = self.dir.joinpath(*o["path"])
            file.unlink(missing_ok=True)  # cleaned already
            while file.parent.is_dir() and not any(file.parent.iterdir()):
                file = file.parent
                file.rmdir()
            return a
        before = self.look()
        out = Path(tempfile.mkdtemp(dir=self.root))
        os.chdir(self.root if o["away"] else self.dir)
        try:
            if k == "build":
                made, err = self.build(lambda: self.load(o["fresh"]).build())
                by = {p.suffix: p for p in made or []}
                a["wheel"] = self.wheel(lambda: by[".whl"])
                a["sdist"] = self.sdist(lambda: by[".gz"])
                a["wheel"]["err"] += err
            elif k == "wheel":
                a["wheel"] = self.wheel(lambda: self.load(o["fresh"]).build_wheel(out))
            elif k == "editable":
                a["wheel"] = self.wheel(lambda: self.load(o["fresh"]).build_wheel(out, editable=True))
            elif k == "sdist":
                a["sdist"] = self.sdist(lambda: self.load(o["fresh"]).build_sdist(out))
            elif k == "meta":
                a["meta"], a["entry"] = self.meta(lambda: self.load(o["fresh"]).build_wheel(out, only_meta=True))
            elif k == "deps":
                with silent():
                    a["meta"] = self.deps(self.load(o["fresh"]))
            elif k == "bump":
                v, err = self.build(lambda: self.load(o["fresh"]).bump_version(o["part"]))
                a["version"] = str(v) if v else "error " + err
                a["leaves"] = self.leaves((self.dir / "pyproject.toml").read_bytes())
            elif k == "clean":
                self.build(lambda: (p := self.load(o["fresh"])).directories.clean_dist([p.config.project.version] if o["keep"] else None) or p.path)
            a["dist"] = self.dist()
        finally:
            os.chdir("/")
        after = self.look()
        a["touched"] = sorted(x for x in before.keys() | after.keys() if before.get(x) != after.get(x) and not (k == "bump" and x == "pyproject.toml"))
        return a


def play(rec):
    with tempfile.TemporaryDirectory() as td:
        root = Path(td).resolve()
        obs, broken = [], ""
        try:
            case = Case(rec, root)
            p = rec["p"]
            p["leaves"] = case.leaves((case.dir / "pyproject.toml").read_bytes())
            for g in p["groups"] + [p]:
                for d in g["deps"]:
                    d["req"] = bare(d["txt"])
        except Exception as e:
            return {**rec, "obs": [], "broken": f"{err_name(e)} {e}"[:300]}
        for o in rec["ops"]:
            obs.append(case.op(o))
        os.chdir("/")
        return {**rec, "obs": obs, "broken": broken}


ENV = Environment.current()
if __name__ == "__main__":
    main(lambda recs: map(play, recs))
