"""C13: fetched resources and their cache (specs/HttpCache.tla)"""
from vlib import *
import site_

PATHS = ["/simple/a", "/simple/a/b.whl", "/a/../../../../b.tar.gz", "/x.json", "/", "", "/p/q.whl?x=1&y=/2", "/%41%20b/c.zip", "/a//b", "/simple/a/", "/../up", "/c.fetch.toml"]
FAULTS = ["drop", "silence", "404", "500", "garbage", "truncate", "truncate", "reset", "loop-away", "206"]


def resources(r, n):
    return [{"framing": r.choice(["length", "length", "chunked", "close"]), "gzip": r.random() < .35, "valid": r.choice(["etag", "etag", "modified", "none", "bare"]),
             "size": r.choice([0, 1, 50, 50, 3000, 3000, 70000])} for _ in range(n)]


def url(r, r_count, used):
    while True:
        u = {"host": r.choice(["one.test:80", "one.test:8080", "two.test:80"]), "path": r.choice(PATHS), "r": r.randrange(r_count),
             "fragment": r.choice(["", "", "", "#sha256=00ff", "#x"]), "redirects": [r.choice(["absolute", "rooted", "relative", "host"]) for _ in range(r.choice([0, 0, 0, 0, 1, 2, 3, 4]))]}
        if u["path"] in ("/", "") and u["redirects"]:
            continue
        if ".." in u["path"] or "//" in u["path"]:  # resolving a relative reference normalizes the path
            u["redirects"] = ["absolute" for _ in u["redirects"]]
        if u["path"] == "" and ("", u["host"]) in used or (u["path"].rstrip("/"), u["host"]) in used:
            continue
        used.add((u["path"].rstrip("/"), u["host"]))
        if u["path"] == "":
            u["path"] = "/"
        return u


def scenario(r, prog=None):
    n = 1 if prog else r.choice([1, 1, 2, 3])
    used = set()
    rs = resources(r, n)
    us = [url(r, n, used) for _ in range(1 if prog else r.choice([1, 2, 3]))]
    if prog is None:
        kinds = r.choice([["ask"], ["all"], ["ask", "all"], ["ask", "all", "bump"], ["ask", "bump"], ["ask", "all", "bump", "clear"]])
        prog = []
        for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
            ops = []
            for _ in range(r.choice([1, 2, 3, 4, 6])):
                k = r.choice(kinds)
                ops.append([k, r.randrange(n if k == "bump" else len(us))])
            prog.append(ops)
    else:
        prog = [[[o, 0] for o in th] for th in prog]
        if r.random() < .7:
            prog.append([["bump", 0]] * r.choice([1, 2]))
    level = r.choice([0, .15, .15, .5])
    faults = [[r.choice(FAULTS) if r.random() < level else "" for _ in range(8)] for _ in us]
    return {"urls": us, "resources": rs, "prog": prog, "faults": faults, "idle": r.choice([0, 0, .3, .8]), "hash": r.random() < .5 and (len(prog) == 1 or not any(k == "bump" for th in prog for k, _ in th)), "seed": r.randrange(10 ** 9)}


def main():
    c = Check("C13")
    r = rng("http")
    progs = []
    for n in ("2", "3"):
        res = model_check("HttpCacheMC", "SPECIFICATION Spec\nINVARIANT Accepted OneFlight Export\nCHECK_DEADLOCK FALSE\n",
                          env={"OUT": "1", "THREADS": n, "VERSIONS": tier("1", "3")}, timeout=3000)
        c.add_tlc(res)
        progs += site_.states(res)
    c.cov["programs_of_the_model"] = len(progs)
    recs = [scenario(r, p) for p in progs for _ in range(tier(25, 400))]
    recs += [scenario(r) for _ in range(tier(7000, 150000))]
    out = run_drivers("d_http.py", split(recs), timeout=tier(600, 12000))
    c.cov["schedules"] = len(out)
    c.cov["requests"] = sum(len(o["reqs"]) for o in out)
    c.cov["rule"] = ("the fetch algorithm model checked for every program of 2 threads with 2 operations or 3 with 1 (fetch with and without asking the server, clear) against a server whose "
                     "resource changes and that may fail; those programs and seeded longer ones run on the real client under seeded schedules against a played server that "
                     "truncates, resets, stays silent, redirects, compresses, chunks, closes idle connections and answers conditionally")
    c.judge("HttpCacheTrace", out, key=lambda rec, cl: cl, timeout=tier(700, 8000))
    return c.finish()
