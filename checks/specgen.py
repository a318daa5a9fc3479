"""generation of specifier expressions (shared by C02, C03)"""
from c01 import canon


def V(r, pre=(), post=-1, dev=-1, loc=(), e=0):
    return {"e": e, "r": list(r), "pre": list(pre), "post": post, "dev": dev, "loc": list(loc)}


# bounds of the algebra: the grid, and what ~= and .* make out of it
GRID = [V((1, 0), (0, 1)), V((1, 0)), V((1, 1)), V((1, 4, 5)), V((2, 0), dev=1), V((2, 0)), V((2, 1), (2, 1)), V((3, 0)), V((3,)),
        V((2, 1))]
DERIVED = [V((1, 2)), V((1, 5, 0)), V((1, 4, 6)), V((4,)), V((3, 1)), V((4, 0)), V((2, 0)), V((2, 2)), V((1, 1), (0, 1))]
WITNESSES = GRID + DERIVED + [
    V((0, 9)), V((1, 0), (0, 0)), V((1, 0), (0, 2)), V((1, 0), (1, 1)), V((1, 0, 5)), V((1, 1), (0, 0)), V((1, 1), (0, 3)),
    V((1, 1, 1)), V((1, 3)), V((1, 4, 5, 1)), V((1, 4, 7)), V((1, 5, 0, 1)), V((1, 6)), V((2, 0), dev=0), V((2, 0), dev=2),
    V((2, 0), (0, 0)), V((2, 0, 0, 1)), V((2, 0, 5)), V((2, 1), (2, 0)), V((2, 1), (2, 2)), V((2, 1, 0, 1)), V((2, 3)), V((3, 0, 0, 1)),
    V((3, 0, 1)), V((3, 1, 0, 1)), V((3, 5)), V((4, 0, 0, 1)), V((5,)), V((9, 9))]


def cmp_(op, v, sp=""):
    return {"k": "cmp", "op": op, "v": v, "text": f"{op}{sp}{canon(v)}"}


def wild(op, v, sp=""):
    return {"k": "wild", "op": op, "v": v, "text": f"{op}{sp}{canon(v)}.*"}


ALL = {"k": "all", "text": "*"}


def atom(r, grid, wilds=True):
    x = r.random()
    if x < .04:
        return ALL
    if wilds and x < .14:
        v = dict(r.choice([g for g in grid if not g["pre"] and g["dev"] < 0]))
        return wild(r.choice(["==", "!="]), v)
    while True:
        op = r.choice(["==", "!=", "!=", ">", "<", ">=", "<=", "~=", ">=", "<"])
        v = r.choice(grid)
        if op == "~=" and len(v["r"]) < 2:
            continue
        return cmp_(op, v)


def expr(r, depth, grid):
    if depth == 0 or r.random() < .15:
        return atom(r, grid)
    k = r.choice(["and", "and", "or", "or", "diff", "not"])
    a = expr(r, depth - 1, grid)
    if k == "not":
        return {"k": "not", "a": a}
    return {"k": k, "a": a, "b": expr(r, r.randint(0, depth - 1), grid)}


def show(e):
    if "text" in e:
        return e["text"]
    if e["k"] == "not":
        return f"~({show(e['a'])})"
    return f"({show(e['a'])} {e['k']} {show(e['b'])})"
