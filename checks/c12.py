"""C12: cached properties (specs/Cached.tla)"""
from vlib import *
import site_


# (clearing a property with a setter does not forget what was set)
ALLOWED = {"plain": ["clear", "clear-all", "set"], "derived": ["clear", "clear-all", "set"], "overriding": ["clear", "clear-all", "set"], "frozen": [], "stored": ["set"]}
SHAPES = ["plain", "plain", "derived", "overriding", "frozen", "stored"]


def main():
    c = Check("C12")
    r = rng("cached")
    progs = []
    for n in ("2", "3"):
        res = model_check("CachedMC", "SPECIFICATION Spec\nINVARIANT Accepted Export\nCHECK_DEADLOCK FALSE\n", env={"OUT": "1", "THREADS": n}, timeout=3000)
        c.add_tlc(res)
        progs += site_.states(res)
    recs = []
    c.cov["programs_of_the_model"] = len(progs)
    for p in progs:
        for _ in range(tier(12, 200)):
            shape = r.choice(SHAPES)
            recs.append({"shape": shape, "seed": r.randrange(10 ** 9), "prog": [[[o, 1] for o in th if o.startswith("read") or o in ALLOWED[shape]] for th in p]})
    for _ in range(tier(8000, 200000)):
        shape = r.choice(SHAPES)
        kinds = {"frozen": [["read"], ["read", "read!"]], "stored": [["read", "set"], ["read", "read", "set"]]}.get(
            shape, [["read"], ["read", "read!"], ["read", "read!", "clear", "clear-all"], ["read", "clear", "set"]])
        ks = r.choice(kinds)
        recs.append({"shape": shape, "seed": r.randrange(10 ** 9),
                     "prog": [[[r.choice(ks), r.choice([1, 1, 2])] for _ in range(r.choice([1, 2, 3, 4]))] for _ in range(r.choice([2, 3, 4]))]})
    out = run_drivers("d_cached.py", split(recs), timeout=tier(600, 12000))
    c.cov["schedules"] = len(out)
    c.cov["rule"] = ("every program of 2 threads with 2 operations or 3 with 1 (read, failing read, clear, set) model checked on the algorithm and run on the real property under "
                     "seeded schedules that preempt between lines of properties.py; seeded longer programs over two objects and five kinds of classes")
    c.judge("CachedTrace", out, key=lambda rec, cl: rec["given"]["shape"] + "-" + cl, timeout=tier(700, 8000))
    return c.finish()
