"""package indexes (the json interface of pypi, simple html pages, directories) played to pkm: what it is offered, what it installs

input records: {repos, ops, seed} of specs/Index.tla; "ask" and "get" operations are answered, every change is followed by a restart"""
import base64
import hashlib
import html
import io
import json
import os
import random
import re
import shutil
import sys
import sysconfig
import tempfile
import threading
import zipfile
from dataclasses import replace
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from pathlib import Path
from urllib.parse import quote, unquote

from common import main, err_name, silent, time_limit, CaseTimeout
from pkm.api.dependencies.dependency import Dependency
from pkm.api.environments.environment import Environment
from pkm.api.environments.environment_builder import EnvironmentBuilder
from pkm.api.packages.package import PackageDescriptor
from pkm.api.pkm import pkm
from pkm.api.versions.version import StandardVersion
from pkm.utils.properties import clear_cached_properties

VERS = ["", "1.0a1", "1.0", "1.0.1", "1.1.dev1", "1.1", "1.10", "2.0rc1", "2.0", "1!0.5"]
GROUPS = ["", "1.*", "2.*", "1!0.*"]
NAMES = [[], ["pk-x", "Pk_X", "pk.x", "PK-x"], ["pk", "PK", "Pk"]]
PLAIN = ["", "pk-x", "pk"]
KEYS = [PackageDescriptor.package_name_key(n) if n else "" for n in PLAIN]
PY = "".join(map(str, sys.version_info[:2]))
PLAT = re.sub("[^a-z0-9]", "_", sysconfig.get_platform())
MULTI = PLAT.replace("linux", "manylinux_2_5")
TAGS = [["cp27-cp27m-win32", "cp35-cp35m-" + MULTI, "py3-none-win_amd64", "py2-none-any", f"cp{PY}-cp{PY}-macosx_11_0_arm64", "pp39-pypy39_pp73-" + MULTI],
        ["py3-none-any", "py2.py3-none-any", f"py{PY}-none-any"], [f"py3-none-{PLAT}", f"py3-none-{MULTI}"], [f"cp{PY}-cp{PY}-{PLAT}", f"cp{PY}-cp{PY}-{MULTI}"]]
REQUIRES = {"yes": [None, "", ">=3.6", ">=3", "~=3.6", ">=3.8,<4", ">=2.7, !=3.0.*, !=3.1.*, !=3.2.*", " >=3.7 ", "!=3.5", ">=3.6.1"],
            "no": ["<3", "==2.7.*", ">=3.99", ">=2.7,<3", "~=3.4.0", "!=3.*", "<=2.7"],
            "odd": [">=3.6.", "3.6+", "python >=3.6", ">=", ">=3.x", ">= '3.6'", "~=3", ">=3.6;<4", "*"]}
RUNS = {}


def wheel(p, v, content):
    info = f"{KEYS[p]}-{VERS[v]}.dist-info"
    fs = {f"{KEYS[p]}/__init__.py": f"ID = {content}\n".encode(),
          f"{info}/METADATA": f"Metadata-Version: 2.1\nName: {PLAIN[p]}\nVersion: {VERS[v]}\nRequires-Dist: dep-{content}\n\n".encode(),
          f"{info}/WHEEL": b"Wheel-Version: 1.0\nGenerator: verif\nRoot-Is-Purelib: true\nTag: py3-none-any\n"}
    digest = lambda d: base64.urlsafe_b64encode(hashlib.sha256(d).digest()).rstrip(b"=").decode()
    fs[f"{info}/RECORD"] = ("".join(f"{k},sha256={digest(d)},{len(d)}\n" for k, d in fs.items()) + f"{info}/RECORD,,\n").encode()
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as z:
        for k, d in fs.items():
            z.writestr(zipfile.ZipInfo(k), d)
    return out.getvalue()


class Handler(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"

    def log_message(self, *_):
        ...

    def do_GET(self):
        path = self.path.split("?")[0]
        run = RUNS.get(path.split("/")[1])
        status, headers, body = run.answer(path) if run else (404, {}, b"?")
        etag = '"' + hashlib.md5(body).hexdigest() + '"'
        if status == 200 and run.etags:
            headers["ETag"] = etag
            if self.headers.get("If-None-Match") == etag:
                status, body = 304, b""
        self.send_response(status)
        for k, v in headers.items():
            self.send_header(k, v)
        if status != 304:
            self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)


class Run:
    def __init__(self, rec, root, env, server, n):
        self.r, self.root, self.env_path, self.n = random.Random(rec["seed"]), root, env, n
        self.repos = rec["repos"]
        self.port = server.server_address[1]
        self.etags, self.strict = self.r.random() < .6, self.r.random() < .5
        self.status = self.r.choice([500, 502, 503])
        RUNS[f"h{n}"] = self
        self.work = root / "work"
        shutil.rmtree(self.work, ignore_errors=True)
        self.slots = {}  # (repo, id) -> file name and the like
        self.pages = {(i, p) for i, _ in enumerate(self.repos) for p in (1, 2) if self.r.random() < .2}
        lines = ['inheritance = "none"']
        for i, repo in enumerate(self.repos):
            url = self.base(i) + self.r.choice(["", "/"])
            lines += [f"[repos.r{i}]", f'type = "{repo["kind"] if repo["kind"] != "files" else "file-system"}"',
                      f'path = "{self.dir(i)}"' if repo["kind"] == "files" else f'url = "{url}"']
            self.dir(i).mkdir(parents=True)
            for f in repo["files"]:
                self.publish(i, f)
        cfg = env / "etc/pkm/repositories.toml"
        cfg.parent.mkdir(parents=True, exist_ok=True)
        cfg.write_text("\n".join(lines) + "\n")
        self.restart()

    def base(self, i):
        return f"http://127.0.0.1:{self.port}/h{self.n}/r{i}/{self.repos[i]['kind']}"

    def dir(self, i):
        return self.work / f"dir{i}"

    # ---- the indexes

    def filename(self, f, i):
        r, v = self.r, VERS[f["v"]]
        if f["kind"] == "whl":
            taken = {s["file"] for k, s in self.slots.items() if k[0] == i}
            for _ in range(20):
                name = f"{r.choice([KEYS[f['p']], KEYS[f['p']], NAMES[f['p']][1].replace('-', '_')])}-{v}{r.choice(['', '', '-1', '-2a'])}-{r.choice(TAGS[f['fit']])}.whl"
                if name not in taken:
                    return name
            return f"{KEYS[f['p']]}-{v}-{f['id'] + 10}-{r.choice(TAGS[f['fit']])}.whl"
        n = r.choice([PLAIN[f["p"]], KEYS[f["p"]], NAMES[f["p"]][1]])
        if f["kind"] == "sdist":
            return f"{n}-{v}" + r.choice([".tar.gz"] if self.repos[i]["kind"] == "files" or r.random() < .7 else [".zip"])
        return f"{n}-{v}" + r.choice([".win32.exe", "-py2.7.egg", ".tar.bz2", ".tar.gz.asc", "-1.noarch.rpm", "-py3-none-any.whl.asc", ".win-amd64-py3.9.msi", ".dmg", ".deb", "-py3-none-any.whl.metadata"])

    def publish(self, i, f):
        self.pages.add((i, f["p"]))
        self.slots[i, f["id"]] = {"file": self.filename(f, i), "py": self.r.choice(REQUIRES[f["py"]]), "seed": self.r.random()}
        if self.repos[i]["kind"] == "files":
            (self.dir(i) / self.slots[i, f["id"]]["file"]).write_bytes(self.content(f))

    def content(self, f):
        return wheel(f["p"], f["v"], f["id"] + (500 if f["dig"] == "bad" else 0))

    def digests(self, f, r, names):
        if f["dig"] == "none":
            return {}
        said = wheel(f["p"], f["v"], f["id"])
        res = {n: hashlib.new(n, said).hexdigest() for n in r.choice(names)}
        return res

    def file_url(self, i, f):
        s = self.slots[i, f["id"]]
        return f"/h{self.n}/r{i}/files/{s['seed']}/{quote(s['file'])}"

    def answer(self, path):
        """status, headers, body of a request"""
        _, _, repo, rest = path.split("/", 3)
        i = int(repo[1:])
        repo = self.repos[i]
        if not repo["up"]:
            return self.status, {}, b"down"
        if rest.startswith("files/"):
            for f in repo["files"]:
                if unquote(self.file_url(i, f)) == unquote(path):
                    return 200, {}, self.content(f)
            return 404, {}, b""
        parts = rest.split("/")[1:]
        p = next((p for p in (1, 2) if parts and KEYS[p] == re.sub("[-_.]+", "_", unquote(parts[0])).lower()), 0)
        if not p or (i, p) not in self.pages:
            return 404, {}, b"nothing"
        files = [f for f in repo["files"] if f["p"] == p]
        if repo["kind"] == "simple":
            if parts[0] != PLAIN[p] or parts[1:] != [""]:
                return (404, {}, b"") if self.strict else (301, {"Location": f"/h{self.n}/r{i}/simple/{PLAIN[p]}/"}, b"")
            return 200, {"Content-Type": "text/html; charset=utf-8"}, self.page(i, p, files).encode()
        if parts[0] != PLAIN[p] and not self.strict:
            return 301, {"Location": f"/h{self.n}/r{i}/pypi/" + "/".join([PLAIN[p]] + parts[1:])}, b""
        if parts[1:] == ["json"]:
            return 200, {"Content-Type": "application/json"}, json.dumps(self.listing(i, p, files)).encode()
        if parts[2:] == ["json"] and unquote(parts[1]) in VERS:
            v = VERS.index(unquote(parts[1]))
            if fs := [f for f in files if f["v"] == v]:
                meta = any(f["meta"] for f in fs)
                return 200, {}, json.dumps({"info": self.info(p, v, [f"rel-{v}"] if meta else None), "urls": [self.described(i, f) for f in fs]}).encode()
        return 404, {}, b""

    def info(self, p, v, requires):
        return {"name": NAMES[p][0], "version": VERS[v], "requires_dist": requires, "requires_python": None, "author": "", "summary": "s", "yanked": False, "keywords": None, "classifiers": [],
                "project_urls": None, "description": "d", "description_content_type": None, "home_page": "", "license": None}

    def described(self, i, f):
        s = self.slots[i, f["id"]]
        r = random.Random(s["seed"])
        kind = {"whl": "bdist_wheel", "sdist": "sdist"}.get(f["kind"]) or r.choice(["bdist_egg", "bdist_wininst", "bdist_rpm", "bdist_dumb", "bdist_dmg"])
        d = {"filename": s["file"], "packagetype": kind, "requires_python": s["py"], "url": f"http://{r.choice(['127.0.0.1', 'localhost'])}:{self.port}{self.file_url(i, f)}", "yanked": f["yank"],
             "yanked_reason": r.choice([None, "broken"]) if f["yank"] else None, "size": 1, "python_version": "py3" if kind == "bdist_wheel" else "source",
             "digests": self.digests(f, r, [["md5", "sha256"], ["sha256"], ["md5"], ["blake2b", "sha256", "md5"]])}
        if "md5" in d["digests"] and "sha256" in d["digests"]:
            d["digests"]["blake2b_256"] = hashlib.blake2b(wheel(f["p"], f["v"], f["id"]), digest_size=32).hexdigest()
            d["digests"].pop("blake2b", None)
            d["digests"] = dict(r.sample(sorted(d["digests"].items()), len(d["digests"])))
        if not d["digests"] and r.random() < .4:
            del d["digests"]
        if not f["yank"] and r.random() < .3:
            del d["yanked"]
        if s["py"] is None and r.random() < .3:
            del d["requires_python"]
        return d

    def listing(self, i, p, files):
        releases = {}
        r = random.Random(f"{self.n}{i}{p}")
        if r.random() < .3:
            releases[r.choice(["1.5", "2004d-old", "0.1"])] = []
        if r.random() < .15:
            releases["2004d-old"] = [{"filename": f"{PLAIN[p]}-2004d-old.win32.exe", "packagetype": "bdist_wininst", "url": "http://127.0.0.1:1/x", "digests": {}, "yanked": False, "requires_python": None}]
        for f in r.sample(files, len(files)):
            releases.setdefault(VERS[f["v"]], []).append(self.described(i, f))
        return {"info": self.info(p, max([f["v"] for f in files] or [1]), None), "releases": releases, "urls": [], "last_serial": 1}

    def page(self, i, p, files):
        r = random.Random(f"{self.n}{i}{p}")
        lines = []
        for f in r.sample(files, len(files)):
            s = self.slots[i, f["id"]]
            q = random.Random(s["seed"])
            url = self.file_url(i, f)
            form = q.choice(["abs", "root", "rel", "other", "net", "dot"])
            url = {"abs": f"http://127.0.0.1:{self.port}{url}", "root": url, "rel": "../../" + url.split("/", 3)[3], "other": f"http://localhost:{self.port}{url}", "net": f"//127.0.0.1:{self.port}{url}",
                   "dot": "./../../" + url.split("/", 3)[3]}[form]
            for n, d in self.digests(f, q, [["sha256"], ["sha256"], ["md5"], ["sha512"]]).items():
                url += f"#{n}={d}"
            attrs = [("href", url)]
            if s["py"] is not None:
                attrs.append(("data-requires-python", s["py"]))
            if f["yank"]:
                attrs.append(("data-yanked", q.choice(["", "broken", None])))
            if q.random() < .3:
                attrs.append(q.choice([("data-gpg-sig", "false"), ("data-dist-info-metadata", "true"), ("rel", "internal"), ("class", "x y")]))
            q.shuffle(attrs)
            at = "".join(f" {k}" if v is None else f' {k}="{html.escape(v)}"' if q.random() < .8 else f" {k}='{html.escape(v)}'" for k, v in attrs)
            a, pad = q.choice(["a", "a", "a", "A"]), q.choice(["", "", "", " ", "\n    "])
            text = f"<{a}{at}>{pad}{html.escape(s['file'])}{pad}</{a}>"
            lines.append(q.choice(["{}<br/>", "{}<br>", "<li>{}</li>", "{}", "<p>{}</p>", "<!-- a file -->{}<br />"]).format(text))
        if r.random() < .3:
            lines.insert(r.randint(0, len(lines)), r.choice(['<a href="/">Home</a>', '<a href="../">Parent directory</a>', "<a name='top'></a>", '<a href="https://example.org/x-1.0.html">docs of 1.0</a>', "<hr/>text.whl<br/>"]))
        sep = r.choice(["\n", "\n    ", "", "\r\n"])
        head = r.choice(["<!DOCTYPE html>\n<html>\n  <head>\n    <meta name=\"pypi:repository-version\" content=\"1.0\">\n    <title>Links for x</title>\n  </head>\n  <body>\n    <h1>Links for x</h1>\n", "<html><body>", "<!doctype html><html><head><title>Simple index</title></head><body>"])
        return head + sep.join(lines) + r.choice(["\n</body>\n</html>\n", "</body></html>", "\n  </body>\n</html>\n<!--SERIAL 1-->"])

    # ---- the changes

    def change(self, o):
        i = o["r"] - 1
        repo = self.repos[i]
        k = o["k"]
        file = next((f for f in repo["files"] if f["id"] == o.get("id")), None)
        if k == "publish":
            repo["files"].append(o["f"])
            self.publish(i, o["f"])
        elif k == "yank":
            file["yank"] = not file["yank"]
        elif k in ("drop", "forget"):
            gone = [f for f in repo["files"] if (f is file if k == "drop" else f["p"] == o["p"])]
            repo["files"] = [f for f in repo["files"] if f not in gone]
            for f in gone:
                if repo["kind"] == "files":
                    (self.dir(i) / self.slots[i, f["id"]]["file"]).unlink()
                del self.slots[i, f["id"]]
            if k == "forget":
                self.pages.discard((i, o["p"]))
        elif k == "mend":
            file["dig"] = "good"
        elif k == "replace":
            self.slots[i, o["new"]] = self.slots.pop((i, file["id"]))
            file.update(id=o["new"], dig="good")
        elif k == "up":
            repo["up"] = not repo["up"]

    def restart(self):
        clear_cached_properties(pkm)
        self.env = Environment(self.env_path)
        self.repo = self.env.repository_management.attached_repo

    # ---- the client

    def text(self, p, spec):
        r = self.r
        sp = r.choice(["", "", " "])
        parts = [f"=={GROUPS[c['v']]}" if c["op"] == "==.*" else f"{c['op']}{sp}{VERS[c['v']]}" for c in spec]
        return r.choice(NAMES[p]) + (r.choice(["", " "]) + r.choice([",", ", "]).join(parts) if parts else "")

    def match(self, p, spec):
        text = self.text(p, spec)
        return [x for x in self.repo.match(self.r.choice([text, Dependency.parse(text)]), self.env) if isinstance(x.version, StandardVersion)]

    def ask(self, o):
        o["got"], o["others"] = [], False
        found = self.match(o["p"], o["spec"])
        for x in found:
            if x.name_key != KEYS[o["p"]] or str(x.version) not in VERS:
                o["others"] = True
                o.setdefault("names", []).append(str(x.descriptor))
            else:
                o["got"].append(VERS.index(str(x.version)))

    def get(self, o):
        o["found"], o["content"] = False, 0
        found = self.match(o["p"], [{"op": "==", "v": o["v"]}])
        o["found"] = bool(found)
        if not found:
            return
        site = self.work / "site"
        shutil.rmtree(site, ignore_errors=True)
        for d in ("lib", "bin", "share"):
            (site / d).mkdir(parents=True)
        target = replace(self.env.installation_target, purelib=str(site / "lib"), platlib=str(site / "lib"), scripts=str(site / "bin"), data=str(site / "share"),
                         include=str(site / "include"), platinclude=str(site / "include"), stdlib=str(site / "std"), platstdlib=str(site / "std"))
        if o["how"] == "deps":
            names = [d.package_name for d in found[0].dependencies(target)]
            kind, _, n = names[0].partition("-") if len(names) == 1 else ("", "", "0")
            o["content"] = int(n) + (1000 if kind == "rel" else 0)
        else:
            found[0].install_to(target)
            o["content"] = int((site / "lib" / KEYS[o["p"]] / "__init__.py").read_text().split("=")[1])


def run(recs):
    root = Path(tempfile.mkdtemp()).resolve()
    server = ThreadingHTTPServer(("127.0.0.1", 0), Handler)
    server.daemon_threads = True
    threading.Thread(target=server.serve_forever, daemon=True).start()
    try:
        EnvironmentBuilder.create(root / "env")
        for n, rec in enumerate(recs):
            given = json.loads(json.dumps(rec))
            with silent():
                x = Run(given, root, root / "env", server, n)
                for o, oo in zip(rec["ops"], given["ops"]):
                    o["err"] = ""
                    try:
                        with time_limit(30):
                            if o["k"] == "ask":
                                x.ask(o)
                            elif o["k"] == "get":
                                x.get(o)
                            else:
                                x.change(oo)
                                x.restart()
                    except (Exception, CaseTimeout) as e:
                        import traceback
                        o["err"], o["trace"] = err_name(e), traceback.format_exc()[-1500:]
            del RUNS[f"h{n}"]
            yield rec
    finally:
        server.shutdown()
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main(run)
