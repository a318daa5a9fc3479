"""C15: repositories and where packages are looked up (specs/Lookup.tla)"""
from vlib import *
import site_

CTX = ("proj", "group", "env", "zoo", "glob")


def dep(r, W, p=None):
    u = r.random()
    if u < .12:
        return {"p": 1, "v": r.randint(1, 5), "url": "file"}
    if u < .17:
        return {"p": r.randint(1, 4), "v": 0, "url": "odd"}
    p = p or r.choice([1, 1, 1, 2, 2, 3, 4])
    return {"p": p, "v": r.choice([0, 0, 1, 2, 3, 5]) if p < 3 else 0, "url": ""}


def content(r):
    return [{"p": p, "v": v} for p in r.sample([1, 2, 3, 4], r.choice([0, 1, 1, 2, 2, 3])) for v in (r.sample([1, 2, 3, 4, 5], r.choice([1, 2, 3])) if p < 3 else [r.choice([1, 3])])]


def looks(r, W, ctx, every=False):
    deps = [{"p": p, "v": 0, "url": ""} for p in (1, 2, 3, 4)] if every else []
    return {"k": "look", "ctx": ctx, "got": [{"dep": d} for d in deps + [dep(r, W) for _ in range(3)]]}


def contexts(W):
    return [x for x in CTX if (x != "group" or W["group"]) and (x != "zoo" or W["zoo"])]


def expand(r, W, ops):
    """adds the observations: at once in the context that changed, in the others by programs that start afterwards"""
    res, last = [], None
    for o in ops:
        if last and last != o["ctx"]:
            res.append({"k": "restart"})
        last = o["ctx"]
        res.append(o)
        if last != "glob":
            res += [looks(r, W, last, r.random() < .4)] + ([{"k": "list", "ctx": last}] if r.random() < .6 else [])
    res.append({"k": "restart"})
    for x in contexts(W):
        res += [looks(r, W, x, True), {"k": "list", "ctx": x}]
    return res


def random_history(r):
    contents = []
    for _ in range(r.choice([2, 3, 4])):
        if (x := content(r)) not in contents:
            contents.append(x)
    W = {"content": contents, "group": r.random() < .6, "zoo": r.random() < .6}
    n = len(W["content"])
    cfg = {}
    names = ["r", "s", "t", "u"]

    def one(ctx):
        repos = [{"n": x, "c": r.randint(1, n + 2) if r.random() < .3 else r.randint(1, n), "b": r.random() < .25} for x in r.sample(names, r.choice([0, 1, 2, 3]))]
        for y in repos:
            y["b"] = y["b"] or y["c"] > n
        binds = []
        for p in r.sample([1, 2, 3, 4], r.choice([0, 0, 1, 2])):
            to = [y["n"] for y in repos if y["c"] <= n]
            binds.append({"p": p, "n": r.choice(to), "c": 0} if to and r.random() < .6 else {"p": p, "n": "", "c": r.randint(1, n)})
        return {"repos": repos, "binds": sorted(binds, key=lambda b: b["n"] == ""), "inh": r.choice(["context", "context", "context", "global", "none"])}

    for x in CTX:
        cfg[x] = one(x) if r.random() < .7 else {"repos": [], "binds": [], "inh": "context" if r.random() < .7 else "none"}
    now = {x: [y["n"] for y in cfg[x]["repos"] if y["c"] <= n] for x in CTX}
    ops = []
    for _ in range(r.choice([0, 2, 4, 6])):
        x = r.choice(contexts(W)) if not ops or r.random() < .5 else ops[-1]["ctx"]
        k = r.choice(["add", "add", "add", "remove", "bind", "bind", "unbind", "bad"])
        o = {"k": k, "ctx": x, "n": r.choice(names), "c": 0, "b": r.random() < .3, "p": r.randint(1, 4)}
        if k == "add":
            o["c"] = r.randint(1, n) if r.random() < .75 or o["n"] in now[x] else r.randint(n + 1, n + 2)
            o["b"] = o["b"] or o["c"] > n
            now[x] = [y for y in now[x] if y != o["n"]] + ([o["n"]] if o["c"] <= n else [])
        elif k == "remove":
            now[x] = [y for y in now[x] if y != o["n"]]
        elif k == "bind":
            o["n"] = r.choice(now[x]) if now[x] and r.random() < .6 else ""
            o["c"] = 0 if o["n"] else r.randint(1, n)
        ops.append(o)
    return {"W": W, "cfg": cfg, "ops": expand(r, W, ops)}


def main():
    c = Check("C15")
    r = rng("lookup")
    res = model_check("LookupMC", "SPECIFICATION Spec\nINVARIANT Sound BindingsDefined Bound BindOnly Isolated GlobalOnly Export\nPROPERTY Inward Appended\n",
                      env={"DEPTH": tier("2", "3")}, timeout=6000)
    c.add_tlc(res)
    recs = []
    states = site_.states(res)
    c.cov["histories_of_the_model"] = len(states)
    for s in r.sample(states, min(len(states), tier(1500, 40000))):
        recs.append({"W": s["W"], "cfg": s["cfg"], "ops": expand(r, s["W"], s["ops"])})
    recs += [random_history(r) for _ in range(tier(2000, 40000))]
    for x in recs:
        x["seed"] = r.randrange(10 ** 9)
    out = run_drivers("d_lookup.py", split(recs), timeout=tier(600, 8000))
    c.cov["lookups"] = sum(len(o.get("got", ())) for t in out for o in t["ops"])
    c.cov["rule"] = ("laws of the lookup on every small configuration (TLC); histories of two operations exported by TLC and seeded configurations of project, group, environment, zoo and pkm "
                     "(named, bind-only, inline-bound repositories, all kinds of inheritance) with up to 6 operations, laid out on disk, performed through the repository managements and looked up in "
                     "every context, at once and by programs started later")
    c.judge("LookupTrace", out, key=lambda rec, cl: cl, timeout=tier(600, 6000))
    return c.finish()
