"""C14: the lock of a project (specs/Lock.tla)"""
from vlib import *
import site_

STOCK = [["p", "P"], ["foo-bar", "Foo_Bar", "foo.bar", "FOO-BAR"], ["Xy-z.w", "xy_z_w", "XY-z-w"]]
VERS = ["3.0", "2.0.post1", "2.0", "2.0rc1", "1.1.dev3", "1.0+local.1", "1!0.5", "0.9"]


def world(r, n, envs, key):
    return {"n": n, "envs": envs, "key": key, "names": STOCK[:n] if r.random() < .5 else STOCK[-n:], "vers": [
        sorted(r.sample(VERS, r.choice([2, 3, 4])), key=lambda v: -[8, 7, 6, 5, 4, 3, 9, 2][VERS.index(v)]) for _ in range(n)]}


def main():
    c = Check("C14")
    r = rng("lock")
    recs = []
    for same in ("0", "1"):
        res = model_check("LockMC", "SPECIFICATION Spec\nINVARIANT SavedIsLoaded OnlyInstalled Export\nPROPERTY UpdateIsLocal\n",
                          env={"DEPTH": tier("3" if same == "1" else "4", "4" if same == "1" else "5"), "SAME": same}, timeout=3000)
        c.add_tlc(res)
        for s in site_.states(res):
            recs.append({"W": {**world(r, 1, 2, s["W"]["key"])}, "ops": s["ops"]})
    c.cov["histories_of_the_model"] = len(recs)
    for _ in range(tier(2500, 40000)):
        n, m = r.choice([1, 2, 3]), r.choice([1, 2, 3])
        W = world(r, n, m, [r.choice([1, 2, 3]) if r.random() < .3 else e + 1 for e in range(m)])
        W["key"] = [min(k, m) for k in W["key"]]
        ops = []
        for _ in range(r.choice([4, 8, 12])):
            k = r.choice(["set", "set", "set", "update", "update", "unlock", "save", "load"])
            p = r.randint(1, n)
            ops.append({"k": k, "e": r.randint(1, m), "p": p, "v": r.randint(0, len(W["vers"][p - 1])), "ps": r.sample(range(1, n + 1), r.randint(1, n))})
            if k == "set" and r.random() < .6:
                ops.append({**ops[-1], "k": "update"})
            if k == "set" and r.random() < .2:  # the same version everywhere
                ops += [{**ops[-1], "e": e, "k": k2} for e in range(1, m + 1) for k2 in ("set", "update")]
        if r.random() < .5:
            ops += [{"k": k, "e": 1, "p": 1, "v": 0, "ps": []} for k in ("save", "load")]
        recs.append({"W": W, "ops": ops})
    for x in r.sample(recs, tier(60, 800)):  # some of them with programs that are started anew
        x["ops"] = [dict(o) for o in x["ops"]] + [{"k": k, "e": 1, "p": 1, "v": 0, "ps": []} for k in ("save", "load")]
        for o in x["ops"]:
            o["restart"] = o["k"] == "load"
    for x in recs:
        x["seed"] = r.randrange(10 ** 9)
    out = run_drivers("d_lock.py", split(recs), timeout=tier(600, 8000))
    c.cov["operations"] = sum(len(o["ops"]) for o in out)
    c.cov["rule"] = ("every history of 4 operations (install, remove, update the lock, unlock, save, load) on a small lock, exported by TLC, and seeded longer ones with up to 3 "
                     "environments and packages and all kinds of versions and spellings, replayed on the real lock; after each operation every query of every environment is judged")
    c.judge("LockTrace", out, key=lambda rec, cl: cl, timeout=tier(600, 6000))
    return c.finish()
