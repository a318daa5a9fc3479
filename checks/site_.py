"""C06 / C07: what installing and removing packages does to a site (specs/Site.tla)"""
import itertools
import json
import re
from vlib import *
from specgen import V, cmp_, ALL
from resolution import spec, spelling, WORDS

MC_CFG = "SPECIFICATION Spec\nINVARIANT RequestsHold FlagsOnlyOnInstalled RequestedVersions Possible Empties Export\n"


def small_ops():
    on = [[False, False], [False, False]]
    base = {"user": True, "up": [], "over": [], "off": on, "u": [], "d": []}
    ds = [[i] for i in range(1, 7)] + [[1, 4], [2, 6]]
    if THOROUGH:
        ds = [[i] for i in range(1, 7)] + [[i, j] for i in (1, 2, 3) for j in (4, 5, 6)]
    for d in ds:
        for up in ([], [1], [1, 2]) if THOROUGH else ([], [1]):
            yield {**base, "k": "install", "d": d, "up": up}
    for u in ([1], [2], [1, 2]):
        yield {**base, "k": "uninstall", "u": u}
    for u in ([1], [2]):
        yield {**base, "k": "remove", "u": u}


def states(r):
    """the reachable states of the specification's small worlds"""
    res = []
    for ln in r.printed:
        m = re.match(r'<<"ST", "(.*)">>$', ln)
        if m:
            res.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    return res


EXTRAS = ["x", "y"]


def world(r):
    n = r.choice([2, 3, 3, 4, 4, 5])
    three = r.random() < .4
    names = [r.sample(WORDS, 2) for _ in range(n)]
    while len({tuple(x) for x in names}) < n:
        names = [r.sample(WORDS, 2) for _ in range(n)]
    if three:
        universe = [(1, 0, 0), (1, 0, 1), (1, 1, 0), (1, 1, 2), (2, 0, 0)]
    else:
        universe = [(1, 0), (2, 0), (3, 0)]
    vers = [[V(x) for x in sorted(r.sample(universe, r.randint(1, min(4, len(universe)))), reverse=True)] for _ in range(n)]
    dens = r.choice([.2, .3, .5])
    extras = r.random() < .4

    def sp():
        if r.random() < .45:
            return ALL
        v = V(r.choice(universe))
        return cmp_(r.choice(["==", "==", ">=", "<=", "<", ">", "!=", "~="]), v)

    def dep(q, owner):
        d = {"q": q + 1, "s": sp(), "x": [], "cond": [], "on": True, "name": spelling(r, names[q])}
        if extras and r.random() < .3:
            d["x"] = r.choice([["x"], ["y"], ["x", "y"]])
        if owner:
            d["on"] = r.random() < .93
            if extras and r.random() < .4:
                d["cond"] = r.choice([["x"], ["y"]])
        return d
    deps = [[[dep(q, True) for q in range(n) if r.random() < dens] for _ in vs] for vs in vers]
    pool = []
    for q in range(n):
        for _ in range(r.choice([2, 3])):
            d = dep(q, False)
            if d not in pool:
                pool.append(d)
        pool.append({"q": q + 1, "s": ALL, "x": [], "cond": [], "on": True, "name": spelling(r, names[q])})
    # requests are recognized by their text
    seen, uniq = set(), []
    for d in pool:
        t = json.dumps([d["name"], d["s"].get("text"), d["x"]])
        if t not in seen:
            seen.add(t)
            uniq.append(d)
    return {"n": n, "vers": vers, "deps": deps, "pool": uniq, "names": ["-".join(x) for x in names], "words": names}


def history(r, W, length):
    n = W["n"]
    ops = []
    off = [[r.random() < .15 for _ in vs] for vs in W["vers"]]
    for _ in range(length):
        if r.random() < .3:  # the repository changes: releases appear and disappear
            off = [[r.random() < .15 for _ in vs] for vs in W["vers"]]
        x = r.random()
        op = {"k": "install", "d": [], "user": True, "up": [], "over": [], "off": off, "u": []}
        names = [spelling(r, w) for w in W["words"]]
        if x < .65:
            k = r.choice([1, 1, 1, 2, 2, 3])
            for q in r.sample(range(1, n + 1), min(k, n)):
                op["d"].append(r.choice([i + 1 for i, d in enumerate(W["pool"]) if d["q"] == q]))
            if r.random() < .35:
                op["up"] = r.sample(range(1, n + 1), r.randint(1, n))
            if r.random() < .12:
                q = r.randrange(n)
                d = dict(r.choice([d for d in W["pool"] if d["q"] == q + 1]))
                op["over"] = [{"p": q + 1, "d": d, "name": spelling(r, W["words"][q])}]
        elif x < .93:
            op["k"] = "uninstall"
            op["u"] = r.sample(range(1, n + 1), r.choice([1, 1, 2]))
        else:
            op["k"] = "remove"
            op["u"] = [r.randint(1, n)]
        op["spell"] = names
        ops.append(op)
    return ops


def main(prop):
    c = Check(prop)
    r = rng("site")
    res = model_check("SiteMC", MC_CFG, env={"OUT": "1", "SMALL": "0" if THOROUGH else "1"}, timeout=3000)
    c.add_tlc(res)
    sts = states(res)
    ops = [o for o in small_ops() if (o["k"] == "install") == (prop == "C06")]
    recs = [{"W": s["W"], "st": s["st"], "ops": [o], "orphans": prop == "C07"} for s in sts for o in ops
            if THOROUGH or prop == "C07" or r.random() < .3]
    c.cov["reachable_states_of_small_worlds"] = len(sts)
    c.cov["enumerated_operations"] = len(recs)
    for _ in range(tier(2000, 20000)):
        W = world(r)
        recs.append({"W": W, "st": {"v": [0] * W["n"], "r": [0] * W["n"]}, "ops": history(r, W, r.randint(3, 9)),
                     "orphans": prop == "C07" and r.random() < .5})
    out = run_drivers("d_site.py", split(recs), timeout=tier(700, 8000))
    # the same with real wheels in a file system repository, in every concurrency mode
    import c08
    scenarios = [s for s in (c08.scenario(r) for _ in range(tier(220, 2500))) if not s["damaged"]]
    wheels = run_drivers("d_wheels.py", split(scenarios), timeout=tier(700, 8000))
    c.cov["operations_on_real_wheels"] = len(wheels)
    out += [{k: v for k, v in x.items() if k not in ("o1", "o2", "infos", "pycs", "empty", "ran")} for x in wheels]
    for x in out:
        x["mode"] = prop
    c.cov["refused"] = sum(x["out"] == "unsolvable" for x in out)
    c.cov["rule"] = ("operations in the reachable states of the worlds of 2 packages x 2 versions (TLC; quick: a seeded third), and seeded histories "
                     "in worlds of up to 5 packages x 4 versions with changing repositories")
    c.judge("SiteTrace", out, key=lambda rec, cl: cl, timeout=tier(700, 8000))
    return c.finish()
