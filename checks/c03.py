"""C03: the set algebra of version specifiers (specs/Specifiers.tla)"""
from vlib import *
from specgen import *
from c01 import canon


def main():
    c = Check("C03")
    r = rng("c03")
    uni = {"op": "universe", "witnesses": WITNESSES, "bounds": GRID + DERIVED, "texts": [canon(w) for w in WITNESSES]}
    recs = []

    def add(a, b):
        recs.append({"op": "algebra", "a": a, "b": b, "ta": show(a), "tb": show(b)})
    # exhaustive: all pairs of atoms over the main grid
    small = [GRID[1], GRID[2], GRID[5]] + tier([], [GRID[0], GRID[3], GRID[6]])
    atoms = [ALL] + [cmp_(op, v) for v in small for op in ("==", "!=", ">", "<", ">=", "<=", "~=")]
    atoms += [wild(op, v) for v in small[:2] for op in ("==", "!=")]
    for a in atoms:
        for b in atoms:
            add(a, b)
    # pairs of two-atom combinations
    pairs = [{"k": k, "a": a, "b": b} for a in atoms for b in atoms for k in ("and", "or")]
    for _ in range(tier(6000, 60000)):
        add(r.choice(pairs), r.choice(pairs if r.random() < .6 else atoms))
    for _ in range(tier(6000, 60000)):
        d = r.choice([1, 2, 2, 3, 3, 4])
        a = expr(r, d, GRID)
        b = expr(r, r.randint(0, d), GRID) if r.random() < .9 else a
        add(a, b)
    out = run_drivers("d_specifiers.py", [[uni] + ch for ch in split(recs)])
    out = [uni] + [o for o in out if o["op"] != "universe"]
    c.judge("SpecifiersTrace", out, key=lambda rec, cl: cl)
    c.cov["rule"] = "all pairs of atoms over a grid, random pairs of composed expressions up to depth 4"
    return c.finish()
