"""C23: applications in containers (specs/Containers.tla)"""
from vlib import *
import site_

DISPLAY = {"app": ["app", "My-App", "the_app", "App2"], "bpp": ["bpp", "Other-Tool", "b_tool"], "plug": ["plug", "app-plug", "Plug_in"], "pluh": ["pluh", "other-plug"], "lib": ["lib", "Some-Lib", "l_l"],
           "lic": ["lic", "lib-two"], "own": ["own", "Of-Env"], "owo": ["owo", "more_own"]}


def key(name):
    return name.replace("-", "_").replace(".", "_").lower()


def rename(x, m):
    """the record x with the names as in m"""
    if isinstance(x, dict):
        return {k: (m.get(v, v) if k in ("n", "app") else rename(v, m)) for k, v in x.items()}
    return [rename(y, m) for y in x] if isinstance(x, list) else x


def named(r, repo, ops, scripts=True):
    names = sorted({p["n"] for p in repo})
    shown = {n: r.choice(DISPLAY[n]) for n in names}
    m = {n: key(s) for n, s in shown.items()}
    ops = [{"form": "dep", **o} for o in ops]
    rec = rename({"repo": repo, "ops": ops}, m)
    return {**rec, "names": [m[n] for n in names], "apps": [m["app"], m["bpp"]], "display": {m[n]: shown[n] for n in names},
            "layout": {m[n]: r.choice(["dir", "dir", "single", "path"]) for n in names}, "seed": r.randrange(10 ** 9)}


def q(r, n, top):
    lo = r.choice([1, 1, 1, 2, top])
    return {"n": n, "lo": lo, "hi": r.choice([9, 9, lo, max(lo, 2)])}


def universe(r):
    tops = {n: r.choice([1, 2, 2, 3]) for n in DISPLAY}
    needs = {"app": ["lib", "lic"], "bpp": ["lib", "lic"], "plug": ["app", "lib", "lic"], "pluh": ["bpp", "lib", "plug"], "lib": ["lic"], "lic": [], "own": ["lib", "lic"], "owo": ["own", "lib"]}
    repo = []
    for n, top in tops.items():
        for v in range(1, top + 1):
            deps = [q(r, d, tops[d]) for d in needs[n] if r.random() < .55]
            s = [x for x in (f"run-{n}", f"{n}.more", f"2{n}", f"{n}_x", f"{n}-x") if r.random() < (.45 if n not in ("lib", "lic", "plug", "pluh") else .3)]
            repo.append({"n": n, "v": v, "deps": deps, "scripts": s})
    return repo, tops


def history(r):
    repo, tops = universe(r)
    ops, there, reqs = [], set(), set()
    o = lambda k, app, x, update=False: {"k": k, "app": app, "q": x, "update": update}
    for _ in range(r.choice([2, 4, 6])):
        k = r.choice(["app"] * 4 + ["add"] * 3 + ["drop"] * 2 + ["remove"])
        a = r.choice(["app", "app", "bpp"])
        if k == "app":
            x = q(r, a, tops[a])
            if r.random() < .15:
                x = {"n": a, "lo": 7, "hi": 9}
            ops.append(o("app", a, x, r.random() < .5))
            if r.random() < .2:  # a project, of one version
                v = r.randint(1, tops[a])
                ops[-1].update(form="project", q={"n": a, "lo": v, "hi": v})
            there.add(a)
        elif k == "remove" and a in there:
            ops.append(o("remove", a, q(r, a, tops[a])))
            there.discard(a)
            reqs = {x for x in reqs if x[0] != a}
        else:
            where = r.choice(["", a] if a in there else [""])
            n = r.choice(["own", "own", "owo", "lib", "lic"] if where == "" else ["plug", "pluh", "lib", "own"] if where == "app" else ["pluh", "lib", "lic"])
            if k == "drop" and reqs:
                where, n = r.choice(sorted(reqs))
            ops.append(o("drop" if k == "drop" and (where, n) in reqs else "add", where, q(r, n, tops[n])))
            (reqs.discard if ops[-1]["k"] == "drop" else reqs.add)((where, n))
    return repo, ops


MODEL = None


def modelled(r, s):
    repo = [{"n": n, "v": v, "deps": [dict(zip(("n", "lo", "hi"), d)) for d in ds], "scripts": ss} for n, v, ds, ss in
            [("app", 1, [("lib", 1, 1)], ["run"]), ("app", 2, [("lib", 1, 2)], ["run", "run-more"]), ("bpp", 1, [("lib", 2, 2)], ["brun"]), ("plug", 1, [("app", 2, 3), ("lib", 1, 1)], []),
             ("lib", 1, [], []), ("lib", 2, [], []), ("own", 1, [("lib", 2, 2)], ["orun"])]]
    return named(r, repo, s["ops"])


def main():
    c = Check("C23")
    r = rng("containers")
    res = model_check("ContainersMC", "SPECIFICATION Spec\nINVARIANT Sound Gone Isolated OwnOnly Possible OneScript Export\nPROPERTY Apart\n", env={"DEPTH": tier("3", "4")}, timeout=3000)
    c.add_tlc(res)
    seen, states = set(), []
    for s in site_.states(res):
        t = json.dumps(s["ops"], sort_keys=True)
        if s["ops"] and t not in seen:
            seen.add(t)
            states.append(s)
    states.sort(key=lambda s: json.dumps(s["ops"], sort_keys=True))
    longest = [s for s in states if len(s["ops"]) == max(len(x["ops"]) for x in states)]
    c.cov["histories_of_the_model"] = len(states)
    recs = [modelled(r, s) for s in r.sample(longest, min(len(longest), tier(80, 3000)))]
    recs += [named(r, *history(r)) for _ in range(tier(170, 6000))]
    out = run_drivers("d_containers.py", split(recs), timeout=tier(600, 9000))
    c.cov["operations"] = sum(len(x["ops"]) for x in out)
    c.cov["scripts_run"] = sum(len(a["runs"]) for x in out for a in x["obs"])
    c.cov["rule"] = ("histories of applications, plugins and packages of the environment are model checked and exported; they and seeded ones in random repositories are replayed in real environments: what is installed where, "
                     "what is on the disk and who owns it, and what every script that is on the path imports and ends with is judged after every operation")
    c.judge("ContainersTrace", out, key=lambda rec, cl: cl, timeout=tier(600, 6000))
    return c.finish()
