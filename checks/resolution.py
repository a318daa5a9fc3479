"""C04 / C05: dependency resolution (specs/Resolution.tla)"""
import json
from vlib import *
from specgen import V, cmp_, wild, ALL
from c01 import canon

MC_CFG = ("SPECIFICATION Spec\nINVARIANT AnswerSound AnswerComplete LearntSound PreferredIsSolution\n"
          "PROPERTY Terminates\n")


def spec(r, top, rel=lambda i: (i, 0)):
    def b():
        return V(rel(r.randint(1, top)))
    x = r.random()
    if x < .2:
        return ALL
    if x < .3:
        a, c = sorted([r.randint(1, top), r.randint(1, top)])
        return {"k": "and", "a": cmp_(r.choice([">=", ">"]), V(rel(a))), "b": cmp_(r.choice(["<", "<=", "!="]), V(rel(c)))}
    if x < .36:
        return wild(r.choice(["==", "!="]), b())
    op = r.choice(["==", "==", "==", ">=", "<=", "<", ">", "!=", "~="])
    return cmp_(op, b())


EXTRAS = ["x", "y"]
WORDS = ["alpha", "beta", "gamma", "delta", "eps"]


def spelling(r, words):
    return "".join(w if i == 0 else r.choice("-_.") + w for i, w in enumerate(
        w.title() if r.random() < .3 else w for w in words))


def problem(r, kind):
    n = r.choice([2, 3, 3, 4, 4, 5])
    top = r.randint(2, 4)
    dens = r.choice([.2, .35, .5, .8])
    rel = r.choice([lambda i: (i, 0), lambda i: (1, i), lambda i: (1, i, 0)])
    vers = []
    for _ in range(n):
        k = r.randint(1, top)
        ns = sorted(r.sample(range(1, top + 1), k), reverse=True)
        pre = r.random() < .15
        vs = [V(rel(i), (2, 1) if pre else ()) for i in ns]
        if kind == "raw" and r.random() < .2:  # pre-releases among the releases
            vs.insert(r.randint(0, len(vs) - 1) if False else 0, V(rel(top + 1), (0, 1)))
        vers.append(vs)
    names = [r.sample(WORDS, 2) for _ in range(n)]
    while len({tuple(x) for x in names}) < n:
        names = [r.sample(WORDS, 2) for _ in range(n)]
    extras = kind == "full" and r.random() < .5
    malformed = r.random() < .25

    def dep(q, owner=True):
        d = {"q": q + 1, "s": spec(r, top, rel), "x": [], "cond": [], "on": True}
        if kind == "full":
            d["name"] = spelling(r, names[q])
            d["mark"] = r.random() < .1
            d["on"] = r.random() < .93
            if extras and r.random() < .35:
                d["x"] = r.choice([["x"], ["y"], ["x", "y"], ["y", "x"]])
            if extras and owner and r.random() < .4:
                d["cond"] = r.choice([["x"], ["y"], ["x", "y"]])
        return d

    def deps(owner=True, m=1.0):
        return [dep(q, owner) for q in range(n) for _ in range(r.choice([1, 1, 1, 2])) if r.random() < dens * m]
    P = {"n": n, "vers": vers, "deps": [[deps(m=.8) for _ in vs] for vs in vers],
         "bad": [[malformed and r.random() < .25 for _ in vs] for vs in vers], "root": deps(False, 1.2), "over": []}
    if kind == "full":
        P["names"] = ["-".join(x) for x in names]
        P["incompatible"] = [[V(rel(top + 3))] if r.random() < .15 else [] for _ in range(n)]
        if r.random() < .25:
            for q in r.sample(range(n), r.choice([1, 1, 2])):
                d = dep(r.choice([q, q, q, r.randrange(n)]), False)
                d["on"] = True
                P["over"].append({"p": q + 1, "d": d, "name": spelling(r, names[q])})
    return P


def layered(r):
    """larger problems: packages depend on later ones only, so a conflict surfaces long after its cause"""
    n = r.choice([5, 6, 7])
    top = r.choice([2, 3, 4])
    vers = [[V((i, 0)) for i in range(top, 0, -1)] for _ in range(n)]
    deps = []
    for p in range(n):
        ds = []
        for v in range(top):
            ds.append([{"q": q + 1, "s": spec(r, top), "x": [], "cond": [], "on": True}
                       for q in range(n) if (q > p or r.random() < .1) and r.random() < .4])
        deps.append(ds)
    root = [{"q": q + 1, "s": r.choice([ALL, ALL, spec(r, top)]), "x": [], "cond": [], "on": True} for q in range(n)
            if r.random() < .4]
    return {"n": n, "vers": vers, "deps": deps, "bad": [[False] * top for _ in range(n)], "root": root, "over": []}


def main(prop):
    c = Check(prop)
    r = rng("resolution")
    out = scratch("mc") / "problems.ndjson"
    c.add_tlc(model_check("ResolutionMC", MC_CFG, env={"OUT": str(out)}))
    recs = []
    for line in out.open():
        P = json.loads(line)
        recs.append({"kind": "raw", "P": P})
    enumerated = len(recs)
    for _ in range(tier(3000, 40000)):
        recs.append({"kind": "raw", "P": problem(r, "raw")})
    for _ in range(tier(1500, 15000)):
        recs.append({"kind": "raw", "P": layered(r)})
    for _ in range(tier(3000, 40000)):
        recs.append({"kind": "full", "P": problem(r, "full")})
    res = run_drivers("d_resolution.py", split(recs), timeout=tier(500, 6000))
    for x in res:
        x["mode"] = prop
    c.cov["enumerated_problems"] = enumerated
    c.cov["solved"] = sum(x["out"] == "solved" for x in res)
    c.cov["unsolvable"] = sum(x["out"] == "unsolvable" for x in res)
    c.cov["rule"] = "every problem of 2 packages x 2 versions (TLC) and seeded problems of up to 7 packages x 4 versions"
    c.judge("ResolutionTrace", res, key=lambda rec, cl: cl, timeout=tier(600, 6000))
    return c.finish()
