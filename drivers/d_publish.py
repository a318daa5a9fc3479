"""projects published to played indexes, credentials kept in stores

input records: {p (project of specs/Build.tla with its configuration), extra (more distribution files), repos, auths, ops, seed}"""
import base64
import email
import hashlib
import json
import os
import random
import re
import shutil
import socket
import struct
import tempfile
import threading
from email.utils import getaddresses
from pathlib import Path

from common import main, err_name, silent, time_limit, CaseTimeout
import d_build
from d_build import NO_META, bare, canonicalize_name, contacts, lines, subsets, PVersion, Requirement, SpecifierSet
from pkm.api.pkm import pkm
from pkm.api.projects.project import Project

SINGLE = {"metadata_version", "name", "version", "summary", "description", "description_content_type", "author", "author_email", "maintainer", "maintainer_email", "license", "requires_python"}


def read_fields(fs, extras):
    """the metadata in the fields of a form"""
    res = json.loads(json.dumps(NO_META))
    try:
        one = lambda k: (fs.get(k) or [""])[0]
        many = lambda *ks: [v for k in ks for v in fs.get(k, [])]
        if any(len(fs.get(k, [])) > 1 for k in SINGLE) or one("metadata_version") not in ("2.1", "2.2", "2.3"):
            raise ValueError("a field is there twice")
        reqs = [Requirement(x) for x in many("requires_dist")]
        sp = SpecifierSet(one("requires_python"))
        if one("description_content_type").split(";")[0].strip() not in ("", "text/plain", "text/markdown", "text/x-rst"):
            raise ValueError("content type")
        res.update(name=canonicalize_name(one("name")), version=str(PVersion(one("version"))), summary=one("summary"), text=one("description").replace("\r\n", "\n").strip(),
                   type=one("description_content_type").split(";")[0].strip(), keywords=[k.strip() for x in many("keywords") for k in x.split(",") if k.strip()],
                   author=[a.strip() for a in one("author").split(",") if a.strip()], maintainer=[a.strip() for a in one("maintainer").split(",") if a.strip()],
                   author_email=contacts([one("author_email")]) if one("author_email") else [], maintainer_email=contacts([one("maintainer_email")]) if one("maintainer_email") else [],
                   license=lines(one("license")), classifiers=many("classifier", "classifiers"), urls=[dict(zip(("label", "url"), (x.strip() for x in u.split(",", 1)))) for u in many("project_url", "project_urls")],
                   extras=[canonicalize_name(x) for x in many("provides_extra", "provides_extras")], python=[k for k in range(6, 15) if sp.contains(f"3.{k}.5")],
                   deps=[{"extras": s, "reqs": sorted({bare(q) for q in reqs if not q.marker or any(q.marker.evaluate({"extra": e}) for e in s or [""])})} for s in subsets(extras)], ok=True)
        for u in res["urls"]:
            u.setdefault("url", "")
    except Exception as e:
        res["err"] = f"{err_name(e)} {e}"[:200]
    return res


def read_form(ctype, body):
    """(parts (name, file name or None, content), what is wrong with it), as rfc 7578 and rfc 2046 say"""
    m = re.fullmatch(r'multipart/form-data; *boundary="?([^";]{1,70})"?', ctype or "")
    if not m:
        return [], f"content type {ctype}"
    mark = b"--" + m.group(1).encode()
    body = b"\r\n" + body
    pieces = body.split(b"\r\n" + mark)
    if len(pieces) < 2 or pieces[0]:
        return [], "does not start with the boundary"
    if pieces[-1] not in (b"--", b"--\r\n"):
        return [], "does not end with the boundary"
    parts = []
    for x in pieces[1:-1]:
        if not x.startswith(b"\r\n") or b"\r\n\r\n" not in x:
            return [], "part without headers"
        head, _, content = x[2:].partition(b"\r\n\r\n")
        try:
            h = email.message_from_string(head.decode("utf-8"))
        except UnicodeError:
            return [], "headers of a part"
        d = h["Content-Disposition"] or ""
        n = re.search(r'; *name="([^"]*)"', d)
        f = re.search(r'; *filename="([^"]*)"', d)
        if not d.startswith("form-data") or not n or h.defects:
            return [], f"headers of a part {head}"
        parts.append((n.group(1), f.group(1) if f else None, content))
    return parts, ""


class Index:
    """one played index on the loopback interface"""

    def __init__(self):
        self.sock = socket.create_server(("127.0.0.1", 0), backlog=50)
        self.port = self.sock.getsockname()[1]
        self.reset([], "", random.Random(1))
        threading.Thread(target=self.serve, daemon=True).start()

    def reset(self, answers, wanted, r):
        self.answers, self.wanted, self.r = list(answers), wanted, r
        self.log, self.elsewhere, self.round = [], 0, object()

    def serve(self):
        while True:
            conn, _ = self.sock.accept()
            threading.Thread(target=self.connection, args=(conn,), daemon=True).start()

    def abort(self, conn):
        # a lost connection: what is not read yet is never answered
        conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))

    def connection(self, conn):
        with conn:
            f = conn.makefile("rb")
            try:
                while self.request(conn, f):
                    pass
            except OSError:
                pass
            finally:
                f.close()

    def request(self, conn, f):
        line = f.readline().decode("latin1")
        if not line:
            return False
        method, path, _ = line.split(" ", 2)
        headers = {}
        while (h := f.readline().decode("latin1").rstrip("\r\n")):
            k, _, v = h.partition(":")
            headers[k.strip().lower()] = v.strip()
        if path.startswith("/elsewhere"):
            self.elsewhere += 1
        answer = self.answers.pop(0) if self.answers else "ok"
        left = self.r.choice([0, 10, 700, 5000]) if answer == "cut" else None
        if answer == "early":
            self.log.append({"answer": answer, "method": method, "path": path, "headers": headers, "body": b""})
            conn.sendall(f"HTTP/1.1 {self.r.choice([401, 403, 413])} No\r\nContent-Length: 0\r\nConnection: close\r\n\r\n".encode())
            return False
        body = b""
        if "chunked" in headers.get("transfer-encoding", ""):
            while True:
                n = int(f.readline().split(b";")[0] or b"0", 16)
                data = f.read(n)
                f.readline()
                body += data
                if n == 0 or left is not None and len(body) > left:
                    break
        elif left is not None:
            body = f.read(min(left, int(headers.get("content-length", "0"))))
        else:
            body = f.read(int(headers.get("content-length", "0")))
        self.log.append({"answer": answer, "method": method, "path": path, "headers": headers, "body": body})
        if answer in ("cut", "lose"):
            self.abort(conn)
            return False
        status = {"ok": 200, "idle": 200, "refuse": self.r.choice([400, 401, 403, 404, 409, 413, 422, 500, 502, 503]), "away": self.r.choice([301, 302, 303, 307, 308])}[answer]
        text = self.r.choice([b"", b"OK\n", b"x" * 3000, b"accepted\r\n" * 6000])
        close = answer != "idle" and self.r.random() < .3
        head = f"HTTP/1.1 {status} {self.r.choice(['OK', 'Some reason'])}\r\n"
        if answer == "away":
            head += f"Location: {self.r.choice(['', f'http://127.0.0.1:{self.port}'])}/elsewhere/\r\n"
        if close:
            head += "Connection: close\r\n"
        if self.r.random() < .3:
            head += "Transfer-Encoding: chunked\r\n\r\n"
            text = (b"%x\r\n%s\r\n" % (len(text), text) if text else b"") + b"0\r\n\r\n"
        else:
            head += f"Content-Length: {len(text)}\r\n\r\n"
        conn.sendall(head.encode() + text)
        return answer != "idle" and not close


class Case:
    def __init__(self, rec, root):
        self.rec, self.root, self.r = rec, root, random.Random(rec["seed"])
        self.build = d_build.Case(rec, root)
        self.dir, self.extras = self.build.dir, self.build.extras
        with silent(), time_limit(60):
            Project.load(self.dir).build()
        p = Project.load(self.dir)
        self.dist = p.directories.dist / str(p.version)
        key = next(self.dist.glob("*.whl")).name.split("-")[0]
        self.files = []
        for i, x in enumerate(rec["extra"]):
            (self.dist / x["name"].replace("{key}", key).replace("{ver}", str(p.version))).write_bytes(random.Random(f"{rec['seed']}-{i}").randbytes(x["size"]))
        for f in sorted(self.dist.iterdir()):
            data = f.read_bytes()
            tags = f.name[:-4].split("-")[-3:] if f.suffix == ".whl" else []
            self.files.append({"name": f.name, "content": self.sha(data), "filetype": "bdist_wheel" if tags else "sdist", "pyversion": tags[0] if tags else "source"})
        cfg = ['inheritance = "none"']
        for i, x in enumerate(rec["repos"]):
            url = f"http://127.0.0.1:{INDEX.port}/r{i}"
            cfg += [f"[repos.{json.dumps(x['name'])}]", f'type = "{x["type"]}"', f'url = "{url}/{x["type"]}"']
            if x["publishable"]:
                cfg.append(f'publish_url = "{url}/legacy{x["slash"]}"')
        file = self.dir / "etc/pkm/repositories.toml"
        file.parent.mkdir(parents=True, exist_ok=True)
        file.write_text("\n".join(cfg) + "\n")
        self.project, self.store = None, None
        self.store_file = root / "home/etc/pkm-cli/store.enc"

    @staticmethod
    def sha(data):
        return hashlib.sha256(data).hexdigest()

    def look(self):
        return {f.relative_to(self.dir).as_posix(): self.sha(f.read_bytes()) for f in self.dir.rglob("*") if f.is_file()}

    def attempt(self, make):
        try:
            with silent(), time_limit(60):
                return make(), "ok", ""
        except (Exception, CaseTimeout) as e:
            return None, "error", f"{err_name(e)} {e}"[:200]

    def received(self, u):
        h = u["headers"]
        res = {"answer": u["answer"], "form": "", "method": u["method"], "path": u["path"], "wanted": INDEX.wanted, "auth": h.get("authorization", ""), "file": "", "content": "", "action": "", "protocol": "",
               "filetype": "", "pyversion": "", "digests": [], "meta": NO_META}
        if u["answer"] in ("cut", "early"):
            return res
        parts, res["form"] = read_form(h.get("content-type"), u["body"])
        if res["form"]:
            return res
        fs, contents = {}, [x for x in parts if x[1] is not None]
        if len(contents) != 1 or contents[0][0] != "content":
            res["form"] = "not one file named content"
            return res
        try:
            for n, f, c in parts:
                if f is None:
                    fs.setdefault(n, []).append(c.decode("utf-8"))
        except UnicodeError:
            res["form"] = "text is not utf-8"
            return res
        one = lambda k: fs[k][0] if len(fs.get(k, [])) == 1 else ""
        data = contents[0][2]
        for k, d in (("md5_digest", hashlib.md5(data)), ("sha256_digest", hashlib.sha256(data)), ("blake2_256_digest", hashlib.blake2b(data, digest_size=32))):
            if k in fs:
                res["digests"].append({"val": one(k), "real": d.hexdigest()})
        res.update(file=contents[0][1], content=self.sha(data), action=one(":action"), protocol=one("protocol_version"), filetype=one("filetype"), pyversion=one("pyversion"), meta=read_fields(fs, self.extras))
        return res

    def auth(self, c):
        return {"username": self.rec["auths"][c - 1]["user"], "password": self.rec["auths"][c - 1]["password"]}

    def op(self, o):
        from pkm_cli.auth.publish_auth_store import PublishAuthenticationStore
        a = {"out": "", "err": "", "files": self.files, "log": [], "elsewhere": 0, "names": [], "got": 0, "touched": [], "clear": False}
        k, before = o["k"], self.look()
        if o["fresh"] or self.project is None:
            self.project = Project.load(self.dir)
        prj = self.project
        if k == "publish":
            repo = self.rec["repos"][o["r"] - 1]
            INDEX.reset(o["answers"], f"/r{o['r'] - 1}/legacy/", random.Random(o["seed"]))

            def publish():
                if o["how"] == "repository":
                    x = repo
                    to = pkm.repository_loader.build(x["name"], x["type"], **prj.repository_management.configuration.repos[x["name"]].args)
                else:
                    to = prj.repository_management.publisher_for(repo["name"])
                    if to is None:
                        raise ValueError("not publishable")
                prj.publish(to, self.auth(o["c"]), self.dist if o["where"] else None)
            _, a["out"], a["err"] = self.attempt(publish)
            a["log"], a["elsewhere"] = [self.received(u) for u in list(INDEX.log)], INDEX.elsewhere
        elif k == "names":
            got, a["out"], a["err"] = self.attempt(lambda: prj.repository_management.publishable_repositories())
            names = [x["name"] for x in self.rec["repos"]]
            a["names"] = [names.index(n) + 1 if n in names and v is not None else 99 for n, v in (got or {}).items()]
        elif k == "restart":
            self.store, a["out"] = None, "ok"
        else:
            self.store = self.store or PublishAuthenticationStore(self.store_file)
            name = self.rec["repos"][o["r"] - 1]["name"]
            if k == "open":
                _, a["out"], a["err"] = self.attempt(lambda: self.store.unlock("pässword of the store" if o["right"] else self.r.choice(["other", "pässword of the stor", " "])))
                if a["out"] != "ok":
                    self.store = None
            elif k == "keep":
                _, a["out"], a["err"] = self.attempt(lambda: self.store.add_auth_args(name, self.auth(o["c"])))
            elif k == "forget":
                _, a["out"], a["err"] = self.attempt(lambda: self.store.rm_auth_args(name))
            elif k == "ask":
                got, a["out"], a["err"] = self.attempt(lambda: self.store.auth_args_for(name))
                all_ = [self.auth(i + 1) for i in range(len(self.rec["auths"]))]
                a["got"] = 0 if got is None else all_.index(dict(got)) + 1 if dict(got) in all_ else 99
        after = self.look()
        a["touched"] = sorted(x for x in before.keys() | after.keys() if before.get(x) != after.get(x))
        if self.store_file.exists():
            data = self.store_file.read_bytes()
            a["clear"] = any(x["password"].encode() in data for x in self.rec["auths"] if len(x["password"]) > 3)
        return a


def play(rec):
    with tempfile.TemporaryDirectory() as td:
        root = Path(td).resolve()
        obs, broken = [], ""
        try:
            case = Case(rec, root)
            p = rec["p"]
            p["leaves"] = []
            for g in p["groups"] + [p]:
                for d in g["deps"]:
                    d["req"] = bare(d["txt"])
            for x in rec["auths"]:
                x["header"] = "Basic " + base64.b64encode(f"{x['user']}:{x['password']}".encode()).decode()
        except Exception as e:
            return {**rec, "obs": [], "broken": f"{err_name(e)} {e}"[:300]}
        for o in rec["ops"]:
            obs.append(case.op(o))
        return {**rec, "obs": obs, "broken": broken}


INDEX = Index()
if __name__ == "__main__":
    main(lambda recs: map(play, recs))
