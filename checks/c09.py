"""C09: a failed installation is undone (specs/Txn.tla, specs/RollbackTrace.tla)"""
import random
from vlib import *
import c08
import site_


def transactions(c):
    res = model_check("TxnMC", "SPECIFICATION Spec\nINVARIANT Restores Agrees WellFormedFs Export\n",
                      env={"OUT": "1", "DEPTH": tier("2", "3")}, timeout=2000)
    c.add_tlc(res)
    recs = []
    r = rng("txn")
    sts = site_.states(res)
    c.cov["operation_sequences"] = len(sts)
    for s in sts:
        if not THOROUGH and r.random() < .5:
            continue
        for raises in (True, False):
            recs.append({"fs": s["fs"], "ops": s["ops"], "raises": raises})
        # the same sequence, ended by an operation that fails by itself
        recs.append({"fs": s["fs"], "ops": s["ops"] + [r.choice([
            {"k": "rm", "p": "d/e/b", "c": ""}, {"k": "copy", "p": "d/e/b", "c": "x"}, {"k": "tree", "p": "d", "c": "x"}])], "raises": False})
    # longer ones
    first = [s for s in recs]
    for _ in range(tier(3000, 60000)):
        a, b, d = (r.choice(first) for _ in range(3))
        ops = a["ops"] + b["ops"] + d["ops"]
        for i, o in enumerate(ops):
            o = ops[i] = dict(o)
            o["c"] = f"new{i}"
        recs.append({"fs": a["fs"], "ops": ops, "raises": r.random() < .6})
    out = run_drivers("d_txn.py", split(recs), timeout=tier(600, 6000))
    c.cov["transactions"] = len(out)
    c.judge("TxnTrace", out, key=lambda rec, cl: cl, timeout=tier(700, 8000))


def installs(r):
    while True:
        s = c08.scenario(r)
        if s["damaged"]:
            continue
        s["ops"] = s["ops"][:r.choice([1, 2, 2, 3, 4])]
        last = next((i for i in range(len(s["ops"]) - 1, -1, -1) if s["ops"][i]["k"] == "install"), None)
        if last is None:
            continue
        s["ops"] = s["ops"][:last + 1]
        s["mode"] = r.choice(["none", "thread"])
        s["fault"] = r.choice(["nospace", "nospace", "denied", "gone", "io", "bug"] + (["stop"] if s["mode"] == "none" else []))
        s["share"] = r.choice([1, .3, .3])
        return s


def main():
    c = Check("C09")
    transactions(c)
    r = rng("rollback")
    recs = [installs(r) for _ in range(tier(150, 3000))]
    out = run_drivers("d_rollback.py", split(recs), timeout=tier(600, 8000))
    c.cov["disturbed_installations"] = len(out)
    c.cov["reported_as_failed"] = sum(x["out"] == "error" for x in out)
    c.cov["rule"] = ("every sequence of 2 (quick: a seeded half of them, thorough: 3) transaction operations over 5 nested paths from every initial tree, and seeded longer ones; "
                     "seeded installations where the k-th access to the disk fails")
    c.judge("RollbackTrace", out, key=lambda rec, cl: cl, timeout=tier(700, 8000))
    return c.finish()
