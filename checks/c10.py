"""C10: promises (specs/Promise.tla)"""
from vlib import *
import site_

OPS = ["complete", "complete", "fail", "result", "result", "poll", "completed", "failed", "succeeded", "when-ret", "when-ret", "when-raise", "cancel"]


def model_programs(c):
    progs = []
    for shape in tier(["111", "21"], ["111", "21", "22"]):
        res = model_check("PromiseMC", "SPECIFICATION Spec\nINVARIANT Accepted NobodyForgotten Export\n", env={"OUT": "1", "SHAPE": shape}, timeout=3000)
        c.add_tlc(res)
        progs += site_.states(res)
    return progs


def numbered(prog):
    """the programs of the specification for the driver"""
    n, out = 1, []
    for p in prog:
        ops = []
        for o in p:
            if o.startswith("when"):
                n += 1
                ops.append([o, 1, n])
            else:
                ops.append([o, 1, 0])
        out.append(ops)
    return out


def random_program(r, kind):
    n, out = 1, []
    for _ in range(r.choice([2, 2, 3, 3, 4])):
        known, ops = [1], []
        for _ in range(r.choice([1, 2, 3, 4])):
            o = r.choice(OPS)
            p = 1 if o in ("complete", "fail", "cancel") else r.choice(known)
            if o.startswith("when"):
                n += 1
                known.append(n)
                ops.append([o, p, n])
            else:
                ops.append([o, p, 0])
        out.append(ops)
    return out


def main():
    c = Check("C10")
    r = rng("promises")
    recs = []
    progs = model_programs(c)
    c.cov["programs_of_the_model"] = len(progs)
    for p in progs:
        for _ in range(tier(4, 60)):
            recs.append({"kind": r.choice(["simple", "simple", "simple", "future"]), "prog": numbered(p), "seed": r.randrange(10 ** 9)})
    for _ in range(tier(6000, 150000)):
        kind = r.choice(["simple", "simple", "future"])
        p = random_program(r, kind)
        for _ in range(2):
            recs.append({"kind": kind, "prog": p, "seed": r.randrange(10 ** 9)})
    for _ in range(tier(4000, 80000)):
        kinds = r.choice([["future"], ["simple"], ["future", "simple", "now"]])
        recs.append({"kind": "await", "workers": r.choice([1, 2, 4]), "seed": r.randrange(10 ** 9),
                     "tasks": [{"k": r.choice(kinds), "steps": r.choice([0, 1, 3]),
                                "out": r.choice(["value", "value", "value", "error", "halt", "interrupt", "exit"])} for _ in range(r.choice([1, 2, 3, 4, 5]))]})
    out = run_drivers("d_promises.py", split(recs), timeout=tier(600, 12000))
    c.cov["schedules"] = len(out)
    c.cov["rule"] = ("every program of 2 or 3 threads with up to 2 operations on one promise (model checked, and run on the code under seeded schedules: random and "
                     "priority-change, preempting between lines of promises.py and at lock operations), seeded longer programs with derived and future promises, "
                     "seeded groups of awaited tasks")
    c.judge("PromiseTrace", out, key=lambda rec, cl: rec["kind"] + "-" + cl, timeout=tier(700, 8000))
    return c.finish()
