"""fetches of resources by several threads from a played server, under a deterministic scheduler

input records: {urls: [{path, r (resource), redirects: [location style]}], resources: [{framing, gzip, valid, size}], prog: per thread [[op, url, more]],
                faults: per url [kind of the next answers], idle: chance that a connection is closed while idle, seed}
  operations: ask, all, never (fetches), clear, bump (a new version of a resource)"""
import dsched
import gzip
import hashlib
import http.client
import io
import os
import random
import shutil
import tempfile
from email.utils import format_datetime
from datetime import datetime, timezone, timedelta
from pathlib import Path

from common import main
from pkm.utils.http import http_client as module
from pkm.utils.http.cache_directive import CacheDirective
from pkm.utils import promises

NOW = None
DIRECTIVES = {"ask": CacheDirective.ask_for_update, "all": CacheDirective.allways}
START = datetime(2020, 1, 1, tzinfo=timezone.utc)


def content(r, v, size):
    head = f"<{r}.{v}>".encode()
    return head + (f"{r}{v}".encode() * (size // 2 + 1))[:size] + f"</{r}.{v}>".encode()


class Raw(io.RawIOBase):
    """the receiving side of a played connection"""
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        dsched.until(lambda: True)
        s = self.sock
        if s.incoming:
            x = s.incoming[0]
            if isinstance(x, BaseException):
                if s.request:
                    NOW["finish"](s)
                raise x
            n = min(len(b), len(x), s.chunk)
            b[:n] = x[:n]
            s.incoming[0] = x[n:]
            if not s.incoming[0]:
                s.incoming.pop(0)
            if not s.incoming:
                NOW["finish"](s)
            return n
        if s.ended:
            NOW["finish"](s)
            return 0
        raise TimeoutError("timed out")  # nothing will ever arrive


class Socket:
    """a played connection to the played server"""
    def __init__(self, host, port):
        self.host, self.port = host, port
        self.sent, self.incoming, self.ended, self.request, self.stale, self.used = b"", [], False, None, None, 0
        self.chunk = NOW["r"].choice([37, 4096, 10 ** 6])

    def makefile(self, *_, **__):
        return io.BufferedReader(Raw(self))

    def settimeout(self, *_):
        ...

    def setsockopt(self, *_):
        ...

    def sendall(self, data):
        dsched.until(lambda: True)
        if self.used and self.stale is None:  # while it was idle, the server may have closed the connection
            self.stale = NOW["r"].choice(["send", "receive"]) if NOW["r"].random() < NOW["rec"]["idle"] else ""
        if self.stale or self.ended:
            if not self.request:
                self.request = NOW["seen"](self, None)
                self.request["k"] = "stale"
            if self.stale == "send" or self.ended:
                NOW["finish"](self)
                raise BrokenPipeError(32, "Broken pipe")
            self.ended = True
            return
        self.sent += bytes(data)
        if b"\r\n\r\n" in self.sent:
            head, self.sent = self.sent.split(b"\r\n\r\n", 1)
            self.used += 1
            self.stale = None
            NOW["serve"](self, head.decode("latin-1"))

    def close(self):
        if NOW:
            NOW["finish"](self)
        self.ended = True


def connect(self):
    dsched.until(lambda: True)
    self.sock = Socket(self.host, self.port)


http.client.HTTPConnection.connect = connect


def run_one(rec, workspace):
    global NOW
    r = random.Random(rec["seed"])
    clock = [0]

    def now():
        clock[0] += 1
        return clock[0]

    ops, reqs, sent, at = [], [], [], {}
    version = {i: 1 for i in range(len(rec["resources"]))}
    faults = {i: list(f) for i, f in enumerate(rec["faults"])}
    urls = rec["urls"]
    for i, u in enumerate(urls):
        u["index"] = i

    def where(host, port, path):
        """(url index, number of redirects already followed) a request belongs to"""
        for i, u in enumerate(urls):
            for k in range(len(u["redirects"]) + 1):
                h, p, _ = place(u, k)
                if (f"{host}:{port}", path) == (h, p):
                    return i, k
        return None

    def place(u, k):
        """host, path and query, and how the redirect to it is written"""
        h, p = u["host"], u["path"]
        how = ""
        for j in range(k):
            style = u["redirects"][j]
            if style == "absolute":
                h, p = f"other{u['index']}.test:8080", f"/moved{j}{p}"
                how = f"http://{h}{p}"
            elif style == "rooted":
                p = f"/rooted{u['index']}{j}{p.split('?')[0]}?k={j}"
                how = p
            elif style == "relative":
                d = p.split("?")[0].rsplit("/", 1)[0]
                p = f"{d}/rel{u['index']}{j}?q=/{j}"
                how = f"rel{u['index']}{j}?q=/{j}"
            elif style == "host":
                h = f"third{u['index']}{j}.test:80"
                how = f"//third{u['index']}{j}.test{p}"
        return h, p, how

    def seen(sock, i):
        at_ = at.get(dsched.current().index)
        q = {"u": i or at_["u"], "by": at_["index"], "at": now(), "end": 0, "k": "bad", "v": 0}
        reqs.append(q)
        return q

    def finish(sock):
        if sock.request and not sock.request["end"]:
            sock.request["end"] = now()
        sock.request = None

    def serve(sock, head):
        line, *hs = head.split("\r\n")
        mtd, path, proto = line.split(" ") if line.count(" ") == 2 else ("?", "?", "?")
        hs = {h.split(":", 1)[0].lower(): h.split(":", 1)[1].strip() for h in hs}
        w = where(sock.host, sock.port, path)
        if w is None or mtd != "GET" or proto != "HTTP/1.1" or hs.get("host", "").split(":")[0] != sock.host:
            sent.append(f"{sock.host}:{sock.port} {line}")
            w = (at[dsched.current().index]["u"] - 1, 0)
        i, k = w
        u = urls[i]
        q = sock.request = seen(sock, i + 1)
        res = rec["resources"][u["r"]]
        fault = faults[i].pop(0) if faults[i] else ""
        v = q["v"] = version[u["r"]]
        if fault == "drop":
            q["k"] = "drop"
            if r.random() < .5:
                sock.incoming = [ConnectionResetError(104, "Connection reset by peer")]
            sock.ended = True
            return
        if fault == "silence":
            return
        if fault in ("404", "500", "206"):
            body = b"<html>sorry</html>"
            sock.incoming = [f"HTTP/1.1 {fault} No\r\ncontent-length: {len(body)}\r\netag: \"sorry\"\r\n\r\n".encode() + body]
            return
        if fault == "garbage":
            sock.incoming = [b"\x00\x01\r\n\r\n"]
            sock.ended = True
            return
        if k < len(u["redirects"]):
            q["k"] = "redirect"
            how = place(u, k + 1)[2]
            body = b"moved"
            sock.incoming = [f"HTTP/1.1 {r.choice([301, 302, 303, 307, 308])} Moved\r\nLocation: {how}\r\ncontent-length: {len(body)}\r\n\r\n".encode() + body]
            return
        if fault == "loop-away":  # a redirect without a target
            sock.incoming = [b"HTTP/1.1 302 Moved\r\ncontent-length: 0\r\n\r\n"]
            return
        etag, modified = f'"{u["r"]}-{v}"', format_datetime(START + timedelta(hours=v), True)
        if (res["valid"] == "etag" and hs.get("if-none-match") == etag) or (res["valid"] == "modified" and hs.get("if-modified-since") == modified):
            q["k"] = "same"
            sock.incoming = [f"HTTP/1.1 304 Same\r\n{'etag: ' + etag if res['valid'] == 'etag' else 'x: y'}\r\n\r\n".encode()]
            return
        body = content(u["r"], v, res["size"])
        h = {"etag": f"etag: {etag}\r\n", "modified": f"last-modified: {modified}\r\n", "none": f"date: {format_datetime(START, True)}\r\n", "bare": ""}[res["valid"]]
        if res["gzip"] and "gzip" in hs.get("accept-encoding", ""):
            body = gzip.compress(body)
            h += "content-encoding: gzip\r\n"
        cut = None
        if fault in ("truncate", "reset"):
            cut = r.randrange(len(body)) if r.random() < .7 else len(body) - 1
        if res["framing"] == "length":
            data = [f"HTTP/1.1 200 OK\r\n{h}Content-Length: {len(body)}\r\n\r\n".encode(), body[:cut]]
        elif res["framing"] == "chunked":
            n = r.choice([11, 700, 10 ** 6])
            parts = b"".join(b"%x\r\n%s\r\n" % (len(body[j:j + n]), body[j:j + n]) for j in range(0, len(body), n))
            if cut is not None:
                parts = parts[:cut]
            data = [f"HTTP/1.1 200 OK\r\n{h}Transfer-Encoding: chunked\r\n\r\n".encode(), parts + (b"0\r\n\r\n" if cut is None else b"")]
        else:  # the content ends with the connection, what is missing can only be noticed by a reset (or by the compression)
            if cut is not None and not res["gzip"]:
                fault = "reset"
            if cut == 0:  # (nothing at all)
                fault = "reset"
            data = [f"HTTP/1.1 200 OK\r\n{h}Connection: close\r\n\r\n".encode(), body[:cut]]
            sock.ended = True
        if cut is not None:
            if fault == "reset":
                data.append(ConnectionResetError(104, "Connection reset by peer"))
            sock.ended = True
        else:
            q["k"] = "full"
            if r.random() < .1:
                data[0] = data[0].replace(b"\r\n\r\n", b"\r\nConnection: close\r\n\r\n") if b"Connection" not in data[0] else data[0]
                sock.ended = True
        sock.incoming = [d for d in data if d]

    NOW = {"r": r, "rec": rec, "seen": seen, "finish": finish, "serve": serve}
    client = module.HttpClient(workspace, max_redirects=3)
    outside = set(x for x in workspace.parent.iterdir())
    busy = {"n": 0, "clear": False}

    def thread(t):
        for op, ui in rec["prog"][t]:
            if op == "bump":
                version[ui] += 1
                dsched.until(lambda: True)
                continue
            u = urls[ui]
            if op == "clear":
                dsched.until(lambda: not busy["n"] and not busy["clear"])
                busy["clear"] = True
            else:
                dsched.until(lambda: not busy["clear"])
                busy["n"] += 1
            e = {"op": op, "u": ui + 1, "inv": now(), "ret": 0, "out": {"k": "none", "v": 0, "e": "", "hash": True}}
            ops.append(e)
            at[t] = {"index": len(ops), "u": ui + 1}
            out = {"k": "ok", "v": 0, "e": "", "hash": True}
            try:
                if op == "clear":
                    client.clear_resources()
                else:
                    res = client.fetch_resource(f"http://{u['host'] if not u['host'].endswith(':80') else u['host'][:-3]}{u['path']}{u['fragment']}", DIRECTIVES[op]())
                    data = res.data.read_bytes()
                    size = rec["resources"][u["r"]]["size"]
                    out["v"] = next((v for v in range(1, version[u["r"]] + 1) if data == content(u["r"], v, size)), 0)
                    if rec["hash"]:
                        out["hash"] = bool(res.is_hash_valid("sha256", hashlib.sha256(data).hexdigest())) and not res.is_hash_valid("sha256", hashlib.sha256(data + b"x").hexdigest()) \
                            and bool(res.is_hash_valid("md5", hashlib.md5(data).hexdigest()))
            except module.HttpException as x:
                out["k"], out["d"] = "error", repr(x)[:200]
            except Exception as x:
                out["k"], out["e"], out["d"] = "crash", type(x).__name__, repr(x)[:200]
            if op == "clear":
                busy["clear"] = False
            else:
                busy["n"] -= 1
            e["out"], e["ret"] = out, now()

    s = dsched.Sched(dsched.chooser(r), files=[module.__file__], max_steps=60000)
    rs = s.run([lambda t=t: thread(t) for t in range(len(rec["prog"]))])
    end = s.outcome
    if end == "done":  # and afterwards, one thread fetches everything from the cache
        rec["prog"].append([["all", i] for i in range(len(urls))])
        t = len(rec["prog"]) - 1
        s2 = dsched.Sched(dsched.chooser(r), max_steps=60000)
        at.clear()

        def last():
            rec["prog"][0:0] = [rec["prog"].pop()]
            thread(0)
            rec["prog"].append(rec["prog"].pop(0))
        rs += s2.run([last])
        end = s2.outcome
        rec["prog"].pop()
    for x in rs:
        if x[0] == "raised":
            end = "raised " + repr(x[1])[:200]
    out = sorted(str(x) for x in workspace.parent.iterdir() if x not in outside)
    out += [str(p) for p in workspace.rglob("*.part")] if end == "done" else []
    for q in reqs:
        if not q["end"]:
            q["end"] = now()
    NOW = None
    return {"ops": ops, "reqs": reqs, "end": end, "outside": out, "sent": sent, "given": rec}


def run(recs):
    for rec in recs:
        d = Path(tempfile.mkdtemp(dir=SHM))
        try:
            yield run_one(rec, d / "x" / "y" / "http-cache")
        finally:
            shutil.rmtree(d, ignore_errors=True)


SHM = "/dev/shm" if os.path.isdir("/dev/shm") else None
if __name__ == "__main__":
    main(run)
