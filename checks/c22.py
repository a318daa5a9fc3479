"""C22: publishing the distributions of projects (specs/Publish.tla)"""
from vlib import *
import site_
import c21

NAMES = ["main-index", "in.ternal", "with space", "ünï", "r1", "x"]
USERS = [("user", "pass word"), ("__token__", "pypi-AgEIcHlwaS5vcmc" + "x" * 150), ("jürgen", "ü:ß=\"'\\"), ("a b", "p:a:s:s"), ("u", "#[x] = 1\nnext")]
EXTRA = ["{key}-{ver}-1-py3-none-any.whl", "{key}-{ver}-cp312-cp312-manylinux_2_17_x86_64.manylinux2014_x86_64.whl", "{key}-{ver}-2a-cp39-abi3-win_amd64.whl", "{key}-{ver}-py2.py3-none-any.whl", "{key}-{ver}.zip"]


def answers(r):
    return [r.choice(["ok"] * 5 + ["idle"] * 3 + ["refuse", "away", "lose", "cut", "early"]) for _ in range(r.choice([0, 2, 4]))]


def op(g, k, **kw):
    return {"k": k, "r": 1, "c": 1, "answers": [], "right": True, "how": g.choice(["publisher", "publisher", "repository"]), "where": g.random() < .3, "fresh": g.random() < .3, "seed": g.randrange(10 ** 9), **kw}


def record(r, ops, n_extra, repos=None):
    p = c21.project(r, [{"path": ["src", "foo", "__init__.py"], "id": 1}, {"path": ["src", "foo", "big.bin"], "id": 2}], [], "src")
    names = r.sample(NAMES, 3)
    repos = repos or [{"name": names[0], "type": "pypi", "publishable": True, "slash": r.choice(["", "", "/"])},
                      {"name": names[1], "type": "pypi", "publishable": r.random() < .6, "slash": r.choice(["", "/"])},
                      {"name": names[2], "type": "simple", "publishable": False, "slash": ""}][:r.choice([2, 3, 3])]
    return {"p": c21.canonical_extras(p), "extra": [{"name": n, "size": r.choice([0, 1, 5000, 9000, 300000, 2000000])} for n in r.sample(EXTRA, n_extra)], "repos": repos,
            "auths": [{"user": u, "password": w, "header": ""} for u, w in r.sample(USERS, 2)], "ops": ops, "seed": r.randrange(10 ** 9)}


def history(r, store=False):
    ops, made, opened, kept = [], False, False, set()
    for _ in range(r.choice([8, 12, 16]) if store else r.choice([1, 2, 4, 6])):
        k = r.choice(["publish"] * (0 if store else 6) + ["names"] * (not store) + (["open"] * (9 if store else 2) if not opened else ["keep", "keep", "ask", "ask", "forget", "forget"]) + ["restart"])
        rep = r.choice([1, 1, 1, 2]) if k == "publish" else r.randint(1, 2)
        o = op(r, k, r=rep, c=r.randint(1, 2), answers=answers(r) if k == "publish" else [], right=not made or r.random() < .7)
        if k == "forget" and rep not in kept:
            continue
        if k == "open":
            opened = o["right"]
        elif k == "keep":
            made = True
            kept.add(rep)
        elif k == "forget":
            kept.discard(rep)
        elif k == "restart":
            opened = False
        ops.append(o)
    return record(r, ops or [op(r, "publish")], r.choice([0, 0, 1, 2]))


def modelled(r, s):
    if s["log"]:
        return record(r, [op(r, "publish", answers=[u["answer"] for u in s["log"]])], 0)
    return record(r, [op(r, o["k"], r=o["r"], c=o["c"], right=o["right"]) for o in s["ops"]], 0)


def main():
    c = Check("C22")
    r = rng("publish")
    res = model_check("PublishMC", "SPECIFICATION Spec\nINVARIANT Honest Accepted Refused Shorter Closed Kept Export\nPROPERTY Ends\n", env={"FILES": "2", "DEPTH": tier("4", "5")}, timeout=3000)
    c.add_tlc(res)
    states = site_.states(res)
    logs = [s for s in states if s["log"]]
    stores = [s for s in states if s["ops"]]
    c.cov["histories_of_the_model"] = len(states)
    recs = [modelled(r, s) for s in r.sample(logs, min(len(logs), tier(150, 5000))) + r.sample(stores, min(len(stores), tier(150, 5000)))]
    recs += [history(r) for _ in range(tier(500, 15000))] + [history(r, True) for _ in range(tier(60, 1000))]
    out = run_drivers("d_publish.py", split(recs), timeout=tier(600, 8000))
    c.cov["operations"] = sum(len(x["ops"]) for x in out)
    c.cov["uploads"] = sum(len(a["log"]) for x in out for a in x["obs"])
    c.cov["rule"] = ("a client and an index that may answer anything, and a store of credentials (TLC), their histories and seeded ones replayed: distributions of projects with random configurations uploaded to a server on the loopback "
                     "network that accepts, refuses, redirects, loses answers and connections; the forms it received are read with an independent reader")
    c.judge("PublishTrace", out, key=lambda rec, cl: cl, timeout=tier(600, 6000))
    return c.finish()
