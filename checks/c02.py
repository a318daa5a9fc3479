"""C02: membership of single version specifiers (specs/Specifiers.tla)"""
from vlib import *
from specgen import *
from c01 import rand_version, neighbour, canon, spell


def conj(parts):
    e = parts[0]
    for p in parts[1:]:
        e = {"k": "and", "a": e, "b": p}
    return e


def main():
    c = Check("C02")
    r = rng("c02")
    recs = []

    def add(s, text, vs):
        recs.append({"op": "member", "s": s, "text": text, "vs": vs, "ts": [canon(v) for v in vs]})

    def candidates(v, posts=True, local=False, plain=False):
        vs = []
        for _ in range(14):
            w = neighbour(r, v)
            if r.random() < .3:
                w = neighbour(r, w)
            if r.random() < .3:  # around the end of ~= and .*
                w["r"] = list(v["r"][:max(1, len(v["r"]) - r.randint(0, 2))])
                w["r"][-1] += r.choice([0, 1, 1, 2])
                w["r"] += [0] * r.randint(0, 1)
            if not local:
                w["loc"] = []
            elif r.random() < .6:
                w["loc"] = rand_version(r)["loc"] or w["loc"]
            if not posts or plain:
                w["post"] = -1
            vs.append(w)
        return vs

    for _ in range(tier(6000, 60000)):
        v = rand_version(r)
        op = r.choice(["==", "!=", ">", "<", ">=", "<=", "~=", "~="])
        if op == "~=" and len(v["r"]) < 2:
            v["r"].append(r.choice([0, 1, 5]))
        eq = op in ("==", "!=")
        if not eq:
            v["loc"] = []
        s = cmp_(op, v)
        sp = r.choice(["", " ", "  "])
        text = op + sp + (spell(r, v).strip() if r.random() < .3 else canon(v))
        if op in (">", "<", ">=", "<=") and not v["pre"] and v["post"] < 0 and v["dev"] < 0 and r.random() < .15:
            text = op + sp + canon(v) + ".*"  # the prefix means nothing for these operators
        elif r.random() < .1:
            text = f"({text})"
        elif r.random() < .1:
            text = f"{op} '{canon(v)}'"
        add(s, text, [v] + candidates(v, local=eq))
    for _ in range(tier(1200, 12000)):
        v = rand_version(r)
        v.update(pre=[], post=-1, dev=-1, loc=[])
        op = r.choice(["==", "!="])
        vs = [w for w in [v] + candidates(v) if op == "==" or w["post"] < 0]
        add(wild(op, v), op + r.choice(["", " "]) + canon(v) + ".*", vs)
    # conjunctions, on versions that are neither post-releases nor local
    for _ in range(tier(5000, 50000)):
        base = rand_version(r)
        base.update(post=-1, loc=[])
        parts, vs = [], []
        for _ in range(r.randint(2, 4)):
            v = neighbour(r, base)
            v.update(post=-1, loc=[])
            op = r.choice(["!=", "!=", ">", "<", ">=", "<=", "~=", "==", ">=", "<"])
            if op == "~=" and len(v["r"]) < 2:
                v["r"].append(r.choice([0, 1, 5]))
            if op in ("==", "!=") and r.random() < .4:
                v.update(pre=[], dev=-1)
                parts.append({**wild(op, v), "text": op + canon(v) + ".*"})
            else:
                parts.append(cmp_(op, v))
            vs.append(v)
            vs += candidates(v, plain=True)[:4]
        text = r.choice([",", ", ", " , "]).join(p["text"] for p in parts)
        if r.random() < .1:
            text = f"({text})"
        add(conj(parts), text, vs)
    uni = {"op": "universe", "witnesses": [], "bounds": []}
    out = run_drivers("d_specifiers.py", split(recs))
    c.judge("SpecifiersTrace", [uni] + out, key=lambda rec, cl: cl)
    c.cov["rule"] = "random specifiers of every operator, judged on candidates around their bounds"
    return c.finish()
