"""C11: the pool of worker processes (specs/ProcPool.tla)"""
from vlib import *

KINDS = ["value", "value", "value", "raise", "die", "unsendable", "unreturnable"]


def scenario(r, real):
    n = r.choice([1, 2, 3, 4, 5, 6] if real else [1, 2, 3, 3, 4, 5])
    tasks = [r.choice(KINDS) for _ in range(n)]
    users = r.choice([1, 1, 2] if real else [1, 1, 2, 2, 3])
    mx = r.choice([1, 1, 2, 2, 3])
    style = r.choice(["plain", "plain", "cancel", "close", "meet"])
    if style == "meet":
        mx = max(mx, 2)
        tasks += ["meet", "meet"]
        r.shuffle(tasks)
    script = [[] for _ in range(users)]
    for i in range(len(tasks)):
        sc = r.choice(script)
        sc.append(["put", i])
        if tasks[i] != "meet" and r.random() < .4:
            sc.append(["wait", i])
        if style in ("cancel", "close") and r.random() < .5:
            r.choice(script).append(["cancel", r.randrange(i + 1)])
    if style == "close":
        sc = r.choice(script)
        sc.insert(r.randrange(len(sc) + 1), ["close", 0])
        if r.random() < .3:
            sc.append(["put", 0]) if not any(o == ["put", 0] for s in script for o in s) else None
    if style == "cancel":
        for sc in script:
            sc += [["cancel", r.randrange(len(tasks))]] if r.random() < .5 else []
    rec = {"real": real, "max": mx, "idle": r.choice([15, .01]) if real else 15, "tasks": tasks, "script": script, "seed": r.randrange(10 ** 9)}
    if real:
        rec["idle"] = r.choice([15, 15, .03])
        rec["modes"] = [[r.choice(["plain", "print", "big", "raw", "child", "threads"]), r.choice([10, 5000, 70000, 300000])] for _ in tasks]
        if style != "close" and r.random() < .6:  # all answers, then close: everything that was printed must be there
            rec["script"].append([["wait", i] for i in range(len(tasks))]) if False else None
            flat = [o for sc in script for o in sc]
            rec["script"] = [flat + [["wait", i] for i in range(len(tasks))] + [["close", 0]]]
    else:
        rec["steps"] = [r.choice([0, 1, 3, 8]) for _ in tasks]
    return rec


def main():
    c = Check("C11")
    for mx in ("1", "2"):
        c.add_tlc(model_check("ProcPoolMC", "SPECIFICATION Spec\nINVARIANT Accepted_ NoLostTask Bounded Conserving\nPROPERTY EveryTaskAnswered CloseReturns\nCHECK_DEADLOCK FALSE\n",
                              env={"TASKS": tier("2", "3") if mx == "2" else "3", "MAX": mx}, timeout=3000))
    r = rng("pool")
    recs = [scenario(r, False) for _ in range(tier(9000, 120000))]
    out = run_drivers("d_procpool.py", split(recs), timeout=tier(600, 12000))
    reals = [scenario(r, True) for _ in range(tier(160, 3000))]
    out2 = run_drivers("d_procpool.py", split(reals, 16), timeout=tier(600, 12000), parallel=tier(8, 8))
    c.cov["schedules"], c.cov["real_pools"] = len(out), len(out2)
    c.cov["rule"] = ("the design model checked with 2-3 tasks of every kind, 1-2 workers, cancellation, death, expiry and closing in any order (safety, and liveness under fairness); "
                     "seeded scenarios of 1-7 tasks and 1-3 users on the real pool whose worker processes are played by scheduled threads (schedules preempt between lines and at "
                     "lock and pipe operations), and on real processes with large results, output and child processes")
    c.judge("ProcPoolTrace", out + out2, key=lambda rec, cl: ("real-" if rec["real"] else "") + cl, timeout=tier(700, 8000))
    return c.finish()
