"""C01: version order, equality, hashing, spelling (specs/Versions.tla)"""
import json
from vlib import *

# in their order as texts
TEXTS = ["01a", "1a", "a", "a1", "a10", "a2", "b", "cu", "local", "ubuntu"]


def rand_version(r):
    def num():
        return r.choice([0, 1, 2, 3, 9, 10, 11, 20, 99, 100, 2022])
    loc = []
    if r.random() < .25:
        for _ in range(r.randint(1, 3)):
            if r.random() < .5:
                n = num()
                loc.append({"n": True, "v": n, "t": str(n)})
            else:
                t = r.randrange(len(TEXTS))
                loc.append({"n": False, "v": t, "t": TEXTS[t]})
    return {"e": r.choice([0, 0, 0, 0, 1, 2]), "r": [num() for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5]))],
            "pre": [r.randrange(3), num()] if r.random() < .4 else [],
            "post": num() if r.random() < .3 else -1, "dev": num() if r.random() < .3 else -1, "loc": loc}


def neighbour(r, v):
    """a version that differs in one particle only: the order has to be decided by exactly that particle"""
    w, o = json.loads(json.dumps(v)), rand_version(r)
    k = r.choice(["e", "r", "r", "pre", "pre", "post", "dev", "loc", "zeros", "same"])
    if k == "zeros":
        w["r"] = w["r"] + [0] * r.randint(1, 2)
    elif k == "r":
        w["r"][r.randrange(len(w["r"]))] = r.choice([0, 1, 2, 9, 10, 11])
    elif k != "same":
        w[k] = o[k]
    return w


PRE_NAMES = [["a", "alpha"], ["b", "beta"], ["rc", "c", "pre", "preview"]]


def canon(v):
    s = f"{v['e']}!" if v["e"] else ""
    s += ".".join(map(str, v["r"]))
    if v["pre"]:
        s += ["a", "b", "rc"][v["pre"][0]] + str(v["pre"][1])
    if v["post"] >= 0:
        s += f".post{v['post']}"
    if v["dev"] >= 0:
        s += f".dev{v['dev']}"
    if v["loc"]:
        s += "+" + ".".join(x["t"] for x in v["loc"])
    return s


def spell(r, v):
    """some spelling that PEP 440 normalizes into v"""
    def case(t):
        return t.upper() if r.random() < .2 else t

    def sep(opts=("", ".", "-", "_")):
        return r.choice(opts)
    def num(n):
        return r.choice(["0", "0", "00"]) + str(n) if r.random() < .1 else str(n)
    s = r.choice(["", "", "v", " ", "V"])
    if v["e"]:
        s += f"{v['e']}!"
    s += ".".join(num(x) for x in v["r"])
    implicit = False
    if v["pre"]:
        s += sep() + case(r.choice(PRE_NAMES[v["pre"][0]]))
        if v["pre"][1] or r.random() < .5:
            s += sep() + num(v["pre"][1])
        else:
            implicit = True
    if v["post"] >= 0:
        if r.random() < .25 and not implicit:
            s += f"-{num(v['post'])}"
        else:
            s += sep() + case(r.choice(["post", "rev", "r"]))
            if v["post"] or r.random() < .5:
                s += sep() + num(v["post"])
    if v["dev"] >= 0:
        s += sep() + case("dev")
        if v["dev"] or r.random() < .5:
            s += sep(("", ".", "-", "_")) + num(v["dev"])
    if v["loc"]:
        s += "+" + "".join((r.choice(".-_") if i else "") + (num(x["v"]) if x["n"] else case(x["t"])) for i, x in enumerate(v["loc"]))
    return s + r.choice(["", "", "", " "])


def main():
    c = Check("C01")
    d = scratch("out")
    mc = model_check("VersionsMC", "INIT Init\nNEXT Next\n" + "".join(f"INVARIANT {i}\n" for i in (
        "Total", "Transitive", "LocalIsLarger", "DevFirst", "PreBeforeFinal", "PostAfter")),
                     env={"OUT": str(d / "u.json")})
    c.add_tlc(mc)
    universe = json.loads((d / "u.json").read_text())["u"]
    r = rng("c01")
    recs = []
    vs = [x["v"] for x in universe]
    ts = [x["c"] for x in universe]
    for v, t in zip(vs, ts):
        recs.append({"op": "row", "v": v, "tv": t, "os": vs, "ts": ts})
    for _ in range(tier(3000, 40000)):
        v = rand_version(r)
        os_ = [neighbour(r, v) for _ in range(6)] + [rand_version(r)]
        for i in range(2):
            os_[i] = neighbour(r, os_[i])
        recs.append({"op": "row", "v": v, "tv": canon(v), "os": os_, "ts": [canon(o) for o in os_]})
    for v in vs:
        for _ in range(tier(6, 40)):
            recs.append({"op": "parse", "v": v, "text": spell(r, v)})
        recs.append({"op": "parse", "v": v, "text": canon(v)})
    for _ in range(tier(6000, 60000)):
        v = rand_version(r)
        recs.append({"op": "parse", "v": v, "text": spell(r, v) if r.random() < .8 else canon(v)})
    for _ in range(tier(300, 3000)):
        base = rand_version(r)
        l = [rand_version(r) if r.random() < .3 else neighbour(r, base) for _ in range(r.randint(2, 14))]
        recs.append({"op": "sort", "vs": l, "ts": [canon(x) for x in l]})
    kinds = [("url", "https://example.com/a.whl"), ("url", "git+https://example.com/a"), ("url", "file:///tmp/x-1.0.zip"),
             ("named", "bamba"), ("named", "release-candidate"), ("named", "zeta"), ("std", "1.0"), ("std", "0!0.0.dev0"),
             ("std", "3.1rc2"), ("std", "2!1.0+local")]
    for a in kinds:
        for b in kinds:
            recs.append({"op": "kinds", "ka": a[0], "ta": a[1], "kb": b[0], "tb": b[1]})
    out = run_drivers("d_versions.py", split(recs))
    c.judge("VersionsTrace", out, key=lambda rec, cl: cl)
    c.cov["rule"] = "all pairs of the exported universe, random neighbour pairs (one particle differs), random spellings"
    return c.finish()
