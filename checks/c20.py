"""C20: environments and what using them does (specs/Envs.tla)"""
from vlib import *
import site_

SPECS = [("*", 1, 7, []), (">=3.9", 3, 7, []), ("==3.9.*", 3, 4, []), ("<3.9", 1, 2, []), (">=3.9,<3.12", 3, 4, []), ("==3.9.1", 3, 3, []), ("~=3.6", 2, 7, []), (">=4", 9, 9, []),
         (">=3, !=3.12.*", 2, 7, [5]), ("==3.9.10", 4, 4, []), ("<3", 1, 1, []), (">=3.13", 6, 7, []), ("!=3.9.1", 1, 7, [3]), ("<3.13", 1, 5, []), (">3.9.1", 4, 7, [])]
ODD_KINDS = ["fails", "junk", "silent", "text", "gone", "chatty", "bytes", "dead", "dir", "dangling"]


def spec(r):
    t, lo, hi, no = r.choice(SPECS)
    return {"txt": t, "lo": lo, "hi": hi, "no": no}


def items(r):
    res = []
    for _ in range(r.choice([0, 1, 2, 4])):
        u = r.random()
        k = "good" if u < .55 else r.choice(["link", "shim"]) if u < .7 else r.choice(ODD_KINDS)
        if k in ("link", "shim") and not any(x["k"] == "good" for x in res):
            k = "good"
        v = r.choice([1, 2, 3, 3, 4, 4, 6, 7])
        if k == "good" and any(x["k"] == "good" and x["v"] == v for x in res):
            continue
        res.append({"k": k, "v": v, "at": r.randint(0, 1), "plain": r.random() < .6})
    return res


def op(r, n, has_pythons):
    ks = ["create"] * 5 + ["put"] * 3 + ["delete"] * 2 + ["odd", "load"] + ["install"] * 7 + ["remove"] * 2 + ["export"] * 4 + ["exportall"] * 2 + ["tidy"] + ["enter"] * 4 + ["leave"] * 3 + ["restart"] \
        + ["run"] * 4 + ["exec"] + ["call"] * 3 + (["pythons"] * 4 + ["create"] * 5 if has_pythons else [])
    k = r.choice(ks)
    o = {"k": k, "e": r.randint(1, n), "p": r.randint(1, 2), "v": r.randint(1, 2), "s": r.randint(1, 4), "how": "", "what": "", "env": "", "args": [], "spec": {"txt": "*", "lo": 1, "hi": 7, "no": []}}
    if k == "create":
        o["how"] = r.choice(["build", "match"] if has_pythons else ["build"] * 6 + ["match", "match", "broken"])
        o["spec"] = spec(r)
    elif k == "pythons":
        o["spec"] = spec(r)
    elif k == "put":
        o["how"] = r.choice(["plain", "file", "half", "std", "std", "std"])
    elif k == "odd":
        o["what"] = r.choice(["delete", "delete", "load", "create"])
        if o["what"] == "create":
            o["what"] = "delete"
    elif k == "enter":
        o["what"] = r.choice(["env", "env", "zoo"])
    elif k == "leave":
        o["how"] = r.choice(["normal", "raise"])
    elif k in ("run", "exec"):
        o["env"] = r.choice(["inherit", "inherit", "extra", "empty"])
    if k in ("run", "exec", "call"):
        o["args"] = r.choice([[], ["a"], ["a b", "", "*", "-x"]])
    return o


# what specs/Envs.tla says makes sense, in a few words: histories are made of such operations only
SCRIPTS = {1: {1: [1, 2], 2: [1]}, 2: {1: [3], 2: [3, 4]}}
REAL = 5


class Shadow:
    def __init__(self, n, pys):
        self.d, self.py, self.pk, self.act, self.pys = {e: "none" for e in range(1, n + 1)}, {}, {}, [], set(pys) | {REAL}

    def usable(self, e):
        return self.d[e] == "env" and self.py[e] == REAL

    def makes(self, o):
        k, e = o["k"], o["e"]
        if k == "put":
            return self.d[e] == "none"
        if k == "delete":
            return self.d[e] != "half"
        if k in ("install", "run", "exec"):
            return self.usable(e)
        if k == "remove":
            return self.usable(e) and self.pk[e][o["p"]] > 0
        if k in ("export", "exportall"):
            return self.d[e] != "env" or self.usable(e)
        if k == "enter":
            return o["what"] == "zoo" or self.d[e] != "env" or self.usable(e)
        if k == "leave":
            return self.act != []
        return True

    def do(self, o):
        k, e = o["k"], o["e"]
        if k == "create" and self.d[e] == "none":
            sp = o["spec"]
            vs = [] if o["how"] == "broken" else [REAL] if o["how"] == "build" else [v for v in self.pys if sp["lo"] <= v <= sp["hi"] and v not in sp["no"]]
            if vs:
                self.d[e], self.py[e], self.pk[e] = "env", max(vs), {1: 0, 2: 0}
        elif k == "put":
            self.d[e] = "env" if o["how"] == "std" else o["how"]
            if o["how"] == "std":
                self.py[e], self.pk[e] = REAL, {1: 0, 2: 0}
        elif k == "delete" and self.d[e] == "env":
            self.d[e] = "none"
        elif k == "install":
            self.pk[e][o["p"]] = o["v"]
        elif k == "remove":
            self.pk[e][o["p"]] = 0
        elif k == "enter" and (o["what"] == "zoo" or self.d[e] == "env"):
            self.act.append(1)
        elif k == "leave":
            self.act.pop()


def random_history(r):
    its = items(r) if r.random() < .3 else []
    n = r.choice([1, 2, 2, 3])
    pys = sorted({x["v"] for x in its if x["k"] == "good"})
    s, ops, want = Shadow(n, pys), [], r.choice([4, 7, 10])
    if n > 1 and not its and r.random() < .3:  # the same scripts exported from several environments
        a, b = r.sample(range(1, n + 1), 2)
        p, x = r.randint(1, 2), r.random() < .5
        plain = {"how": "", "what": "", "env": "", "args": [], "spec": {"txt": "*", "lo": 1, "hi": 7, "no": []}}
        for k, e in [("put" if x else "create", a), ("install", a), ("create", b), ("install", b), (r.choice(["export", "exportall", "exportall"]), a), (r.choice(["exportall", "exportall", "export"]), b), ("call", b)]:
            v = r.randint(1, 2)
            o = {"k": k, "e": e, "p": p, "v": v, "s": 0, **plain, "how": {"put": "std", "create": "build"}.get(k, "")}
            have = SCRIPTS[p][s.pk[e][p]] if k in ("export", "call") and s.pk[e][p] else [1]
            o["s"] = r.choice(have)
            s.do(o)
            ops.append(o)
        want = len(ops) + r.choice([0, 2, 4])
    for _ in range(200):
        if len(ops) >= want:
            break
        o = op(r, n, bool(its))
        # operations on what is not there are rare
        if o["k"] in ("load", "export", "exportall", "enter", "delete") and o["what"] != "zoo" and s.d[o["e"]] != "env" and r.random() < .85:
            continue
        if o["k"] in ("create",) and s.d[o["e"]] != "none" and r.random() < .8:
            continue
        if o["k"] in ("export", "run", "exec") and s.d[o["e"]] == "env" and s.usable(o["e"]):
            have = [x for p, v in s.pk[o["e"]].items() if v for x in SCRIPTS[p][v]]
            if have and r.random() < .75:
                o["s"] = r.choice(have)
            elif r.random() < .6:
                continue
        if s.makes(o):
            s.do(o)
            ops.append(o)
    return {"n": n, "path": r.choice(["unset", "empty", "set", "set"]), "venv": r.choice(["unset", "empty", "set"]), "pys": pys, "items": its, "ops": ops, "seed": r.randrange(10 ** 9)}


def modelled(r, s):
    ops = []
    for o in s["ops"]:
        x = op(r, 1, False)
        x.update(k=o["k"], e=o["e"], p=o["p"], v=o["v"], s=o["s"], how=o["how"], what=o["what"], env=o["env"], args=[], spec={"txt": "*", "lo": 1, "hi": 7, "no": []})
        ops.append(x)
    return {"n": 2, "path": s["path"], "venv": r.choice(["unset", "empty", "set"]), "pys": [], "items": [], "ops": ops, "seed": r.randrange(10 ** 9)}


def main():
    c = Check("C20")
    r = rng("envs")
    res = model_check("EnvsMC", "SPECIFICATION Spec\nINVARIANT Sound Runs Export\nPROPERTY Failing Others Kept Nested\n", env={"DEPTH": tier("3", "4")}, timeout=6000)
    c.add_tlc(res)
    states = site_.states(res)
    c.cov["histories_of_the_model"] = len(states)
    recs = [modelled(r, s) for s in r.sample(states, min(len(states), tier(250, 10000)))]
    recs += [random_history(r) for _ in range(tier(450, 12000))]
    recs = [x for x in recs if x["ops"]]
    out = run_drivers("d_envs.py", split(recs), timeout=tier(600, 8000))
    c.cov["operations"] = sum(len(x["ops"]) for x in out)
    c.cov["rule"] = ("laws of environments on every short history (TLC), histories exported by TLC and seeded ones replayed: environments made by pkm and by the standard library below a zoo, packages installed into and "
                     "removed from them, scripts exported and run, nested activations left normally and by exceptions, restarts, interpreters of many kinds in PATH; after every operation disk and variables are looked at")
    c.judge("EnvsTrace", out, key=lambda rec, cl: cl, timeout=tier(600, 6000))
    return c.finish()
