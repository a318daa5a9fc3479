"""C19: what package indexes offer (specs/Index.tla)"""
from vlib import *
import site_

N = 9


def spec(r):
    u = r.random()
    pre = (1, 4, 7)
    if u < .3:
        return []
    if u < .5:
        return [{"op": "==", "v": r.randint(1, N)}]
    cs = []
    for _ in range(r.choice([1, 1, 2])):
        op = r.choice([">=", ">=", "<=", ">", "<", "!=", "==.*"])
        if op == "==.*":
            v = 3
        elif op == "<":
            v = r.choice([3, 6, 9])
        else:
            v = r.randint(1, N) if op in (">=", "<=") and not cs else r.choice([v for v in range(1, N + 1) if v not in pre])
        if any(c["op"] == op or c["v"] in pre for c in cs):
            continue
        cs.append({"op": op, "v": v})
    return cs


def file(r, kind, n, metas):
    v, p = r.choice([2, 2, 5, 5, 7, 8, 8, 9, 1, 3, 4, 6]), r.choice([1, 1, 1, 2])
    k = r.choice(["whl"] * 6 + ["sdist"] * 2 + ["junk"])
    web = kind != "files"
    return {"id": n, "p": p, "v": v, "kind": k, "fit": r.choice([0, 1, 1, 1, 2, 3]) if k == "whl" else 0, "py": r.choice(["yes"] * 6 + ["no", "no", "odd"]) if web else "yes",
            "yank": web and r.random() < .15, "dig": r.choice(["good", "good", "none", "bad"]) if web else "none", "meta": kind == "pypi" and (p, v) in metas}


def questions(r, repos, n):
    for _ in range(n):
        files = [f for x in repos for f in x["files"]]
        if files and r.random() < .4:
            f = r.choice(files)
            p, v = f["p"], f["v"]
            # source distributions are not built here
            wheels = [g for x in repos for g in x["files"] if g["p"] == p and g["v"] == v and g["kind"] == "whl"]
            sources = [x for x in repos if any(g["p"] == p and g["v"] == v and g["kind"] == "sdist" for g in x["files"])
                       and (x["kind"] == "files" or not any(g in x["files"] and g["fit"] and not g["yank"] and g["py"] == "yes" for g in wheels))]
            if not sources:
                yield {"k": "get", "p": p, "v": v, "how": r.choice(["install", "install", "deps"])}
                continue
        yield {"k": "ask", "p": r.choice([1, 1, 1, 2]), "spec": spec(r), "got": [], "others": False}


def apply(repos, o):
    x = repos[o["r"] - 1]
    f = next((f for f in x["files"] if f["id"] == o.get("id")), None)
    if o["k"] == "publish":
        x["files"].append(dict(o["f"]))
    elif o["k"] == "yank":
        f["yank"] = not f["yank"]
    elif o["k"] == "drop":
        x["files"].remove(f)
    elif o["k"] == "forget":
        x["files"] = [g for g in x["files"] if g["p"] != o["p"]]
    elif o["k"] == "mend":
        f["dig"] = "good"
    elif o["k"] == "replace":
        f.update(id=o["new"], dig="good")
    elif o["k"] == "up":
        x["up"] = not x["up"]


def expand(r, start, changes, every):
    repos = json.loads(json.dumps(start))
    ops = list(questions(r, repos, every)) if any(x["files"] for x in repos) else []
    for o in changes:
        apply(repos, o)
        ops += [o, *questions(r, repos, every)]
    return {"repos": start, "ops": ops, "seed": r.randrange(10 ** 9)}


def random_history(r):
    repos, n = [], 0
    metas = {(p, v) for p in (1, 2) for v in range(1, N + 1) if r.random() < .3}
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        kind = r.choice(["pypi", "pypi", "simple", "simple", "files"])
        files = []
        for _ in range(r.choice([0, 1, 3, 5, 8])):
            n += 1
            files.append(file(r, kind, n, metas))
        repos.append({"kind": kind, "up": kind == "files" or r.random() < .97, "files": distinct(files, kind)})
    changes, now = [], json.loads(json.dumps(repos))
    for _ in range(r.choice([0, 1, 2, 4])):
        i = r.randrange(len(now))
        x = now[i]
        web = x["kind"] != "files"
        k = r.choice(["publish", "publish", "publish", "yank", "drop", "forget", "mend", "mend", "replace", "up"])
        n += 1
        o = {"k": k, "r": i + 1, "id": 0, "new": n, "p": r.choice([1, 2])}
        if k == "publish":
            o["f"] = file(r, x["kind"], n, metas)
            if len(distinct(x["files"] + [o["f"]], x["kind"])) == len(x["files"]):
                continue
        elif k == "up":
            if not web:
                continue
        elif k != "forget":
            fs = [f for f in x["files"] if k == "drop" or (web and (k == "yank" or (k == "mend" and f["dig"] == "bad") or (k == "replace" and f["dig"] != "none" and f["kind"] == "whl")))]
            if not fs:
                continue
            o["id"] = r.choice(fs)["id"]
        apply(now, o)
        changes.append(o)
    return expand(r, repos, changes, r.choice([2, 3, 4]))


def distinct(files, kind):
    """a version has one source distribution, and junk only where somebody would publish it; file names do not repeat"""
    res = []
    for f in files:
        if f["kind"] != "whl" and any(g["kind"] == f["kind"] and g["p"] == f["p"] and g["v"] == f["v"] for g in res):
            continue
        res.append(f)
    return res


def main():
    c = Check("C19")
    r = rng("index")
    res = model_check("IndexMC", "SPECIFICATION Spec\nINVARIANT Total Finals Certain Stricter Right Export\nPROPERTY Local Yanked\n", env={"DEPTH": tier("2", "3")}, timeout=6000)
    c.add_tlc(res)
    states = site_.states(res)
    c.cov["histories_of_the_model"] = len(states)
    recs = []
    for s in r.sample(states, min(len(states), tier(500, 40000))):
        recs.append(expand(r, s["repos"], s["ops"], 2))
    recs += [random_history(r) for _ in range(tier(1100, 30000))]
    recs = [x for x in recs if any(o["k"] in ("ask", "get") for o in x["ops"])]
    out = run_drivers("d_index.py", split(recs), timeout=tier(600, 8000))
    c.cov["questions"] = sum(o["k"] in ("ask", "get") for t in out for o in t["ops"])
    c.cov["rule"] = ("laws of what is offered on every small listing of two repositories (TLC); histories exported by TLC and seeded ones (publishing, yanking, removing, replacing, mending files, outages) "
                     "of up to three repositories: the json interface of PyPI and simple html pages served on the loopback network, and directories; every listing and every installation is judged")
    c.judge("IndexTrace", out, key=lambda rec, cl: cl, timeout=tier(600, 6000))
    return c.finish()
