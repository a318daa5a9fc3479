"""C16: configuration files (specs/Toml.tla)"""
import copy
from vlib import *
import site_


class Time(str):
    ...


KEYS = ["a", "b", "c-d", "e_f", "1", "x.y", "sp ace", "\u00e9", 'Q"', "it's", ""]
STRINGS = ["", "a", "a b", 'q"t', "back\\s", "li\nne", "tab\t", "it's", "\u00e9\u00df", "x" * 50, "#h", "[x]", "1", "true", '"""', "\\", "a\\n", "\x01", "'''", "\U0001f600", "k = 1", "{a}", "a,b", 'two""', "two''", 'x"\n"', '""', "'"]


def tree(v):
    if isinstance(v, dict):
        return {"t": "table", "items": [{"k": ascii(k)[1:-1], "v": tree(x)} for k, x in v.items()]}
    if isinstance(v, list):
        return {"t": "array", "items": [tree(x) for x in v]}
    return {"t": "val", "x": "dt:" + v if isinstance(v, Time) else ascii(v)}


def scalar(r):
    u = r.random()
    if u < .55:
        return r.choice(STRINGS)
    if u < .7:
        return r.choice([True, False])
    if u < .85:
        return r.choice([0, 7, -3, r.randint(-10 ** 4, 10 ** 6), 2 ** 62])
    if u < .93:
        return r.choice([1.5, -0.25, 1e10, 1e-07, float("inf"), float("-inf"), 3.0])
    return Time(r.choice(["1979-05-27", "07:32:00", "1979-05-27T07:32:00", "1979-05-27T00:32:00-07:00", "07:32:00.500000"]))


def array(r, d):
    return [r.choice([scalar(r), scalar(r)] + ([array(r, d - 1), table(r, d - 1, True)] if d > 0 else [])) for _ in range(r.choice([0, 1, 2, 3]))]


def table(r, d, small=False):
    t = {}
    for k in r.sample(KEYS, r.choice([0, 1, 2, 3]) if small or d < 2 else r.choice([1, 2, 3, 4])):
        u = r.random()
        if d > 0 and u < .4:
            t[k] = table(r, d - 1)
        elif d > 0 and u < .5:
            t[k] = [table(r, d - 1) for _ in range(r.choice([1, 2]))]
        elif u < .65:
            t[k] = array(r, 1 if d > 0 else 0)
        else:
            t[k] = scalar(r)
    return t


def tables(v):
    return isinstance(v, list) and v and all(isinstance(x, dict) for x in v)


def statements(r, t):
    """statements that say t (up to the order of keys), as blocks that may be written in any order as long as those of one array keep theirs"""
    blocks = []

    def sets(t, path, block):
        later = []
        for k, v in t.items():
            if (isinstance(v, dict) and r.random() < .75) or (tables(v) and r.random() < .7):
                later.append((k, v))
            elif isinstance(v, dict) and v and r.random() < .5:
                for k2, x in v.items():
                    if isinstance(x, dict) and x and r.random() < .4:
                        block += [{"st": "set", "path": [k, k2, k3], "val": y} for k3, y in x.items()]
                    else:
                        block.append({"st": "set", "path": [k, k2], "val": x})
            else:
                block.append({"st": "set", "path": [k], "val": v})
        for k, v in later:
            p = path + [k]
            if isinstance(v, dict):
                if v and all(isinstance(x, dict) or tables(x) for x in v.values()) and r.random() < .5:
                    for k2, x in v.items():  # the table itself is not mentioned
                        for i, y in enumerate([x] if isinstance(x, dict) else x):
                            blocks.append(b := [{"st": "table" if isinstance(x, dict) else "item", "path": p + [k2]}])
                            sets(y, p + [k2], b)
                else:
                    blocks.append(b := [{"st": "table", "path": p}])
                    sets(v, p, b)
            else:
                for x in v:
                    blocks.append(b := [{"st": "item", "path": p}])
                    sets(x, p, b)

    root = []
    sets(t, [], root)
    if r.random() < .25 and not any(s["st"] == "item" for b in blocks for s in b):
        r.shuffle(blocks)
    doc = [s for b in [root] + blocks for s in b]
    return [{**s, "path": [ascii(k)[1:-1] for k in s["path"]], **({"val": tree(s["val"])} if "val" in s else {})} for s in doc]


def steps(p):
    return [{"k": "", "i": x + 1} if isinstance(x, int) else {"k": ascii(x)[1:-1], "i": 0} for x in p]


def nodes(v, p=()):
    if isinstance(v, (dict, list)):
        yield p, v
        for k, x in (v.items() if isinstance(v, dict) else enumerate(v)):
            yield from nodes(x, p + (k,))


def random_edit(r, t):
    """an edit of t, which is changed"""
    places = list(nodes(t))
    p, v = r.choice(places) if r.random() < .8 else places[0]
    new = copy.deepcopy(r.choice([scalar(r), scalar(r), scalar(r), table(r, 1), array(r, 1), [table(r, 0), table(r, 0)]]))
    e = {"val": tree(new)}
    if isinstance(v, list):
        if v and r.random() < .5:
            v.pop()
            return {**e, "op": "cut", "path": steps(p)}
        v.append(new := new if not tables(v) or r.random() < .3 else table(r, 1))
        return {"val": tree(new), "op": "append", "path": steps(p)}
    if v and r.random() < .35:
        del v[k := r.choice(list(v))]
        return {**e, "op": "del", "path": steps(p + (k,))}
    k = r.choice(list(v)) if v and r.random() < .5 else r.choice(KEYS)
    v[k] = new
    return {**e, "op": "put", "path": steps(p + (k,))}


def rounds(r, t, edit, n=(0, 1, 1, 2, 3)):
    t = copy.deepcopy(t)
    return [{"edits": [edit(r, t) for _ in range(r.choice([1, 1, 2, 4]))]} for _ in range(r.choice(n))]


def random_toml(r):
    t = table(r, r.choice([1, 2, 2, 3]))
    if r.random() < .05:
        t = {}
    return {"kind": "toml", "doc": statements(r, t), "rounds": rounds(r, t, random_edit)}


def untree(t):
    if t["t"] == "table":
        return {i["k"]: untree(i["v"]) for i in t["items"]}
    return [untree(x) for x in t["items"]] if t["t"] == "array" else t["x"]


def meaning(doc):
    """of files of the model (for choosing edits; what they mean is up to the specification)"""
    root, base = {}, {}
    for s in doc:
        node = base if s["st"] == "set" else root
        for k in s["path"][:-1]:
            node = node.setdefault(k, {})
            node = node[-1] if isinstance(node, list) else node
        k = s["path"][-1]
        if s["st"] == "set":
            node[k] = untree(s["val"])
        elif s["st"] == "table":
            base = node.setdefault(k, {})
        else:
            node.setdefault(k, []).append(base := {})
    return root


# files of the other formats: their values are texts
NAMES = ["a", "main", "x-y", "A.b", "two words", "c:d", "50%"]
TEXTS = ["m:f", "pkg.mod:obj.attr", "m:f [e1,e2]", "%(x)s", "100%", "a = b", "x;y", "#no", "a # b", "1.0", "\u00e9", "C:\\x", "a: b: c", "m"]


def other_value(r, kind):
    if kind == "json":
        return r.choice([scalar, lambda r: table(r, 1), lambda r: array(r, 1)])(r)
    return r.choice(TEXTS)


def without_times(v):
    return json.loads(json.dumps(v)) if "Infinity" not in json.dumps(v) else "inf"


def random_other(r, kind):
    if kind == "ini":
        t = {s: {k: r.choice(TEXTS) for k in r.sample(NAMES, r.choice([0, 1, 2, 3]))} for s in r.sample(["console_scripts", "gui_scripts", "a.b", "DEFAULT", "G"], r.choice([0, 1, 2, 3]))}
    elif kind == "wheel":
        t = {k: r.choice(TEXTS) for k in r.sample(["Wheel-Version", "Generator", "home", "x", "include-system"], r.choice([1, 2, 3]))}
    elif kind == "csv":
        row = lambda: {"file": r.choice(["a.py", "../x", "a,b.py", 'q"x', "sp ace", "\u00e9", "li\nne"]), "hash_signature": r.choice(["", "sha256=abc-_"]), "length": r.choice(["", "12"])}
        t = {"records": [row() for _ in range(r.choice([0, 1, 2, 4]))]}
    else:
        t = without_times(table(r, 2))
        t = t if isinstance(t, dict) else {"x": 1}

    def edit(r, t):
        if kind == "csv":
            if t["records"] and r.random() < .4:
                t["records"].pop()
                return {"op": "cut", "path": steps(["records"]), "val": tree("")}
            t["records"].append(x := row())
            return {"op": "append", "path": steps(["records"]), "val": tree(x)}
        p, v = [(p, v) for p, v in nodes(t) if isinstance(v, dict) and (kind != "ini" or p or not v or r.random() < .3)][-1] if kind != "wheel" else ((), t)
        if v and r.random() < .3 and (kind != "wheel" or len(v) > 1):
            del v[k := r.choice(list(v))]
            return {"op": "del", "path": steps(p + (k,)), "val": tree("")}
        k = r.choice(NAMES if kind == "ini" and p else ["s1", "s2", "a"])
        v[k] = new = ({n: r.choice(TEXTS) for n in r.sample(NAMES, 2)} if kind == "ini" and not p else without_times(other_value(r, kind)))
        return {"op": "put", "path": steps(p + (k,)), "val": tree(new)}

    return {"kind": kind, "doc": [], "base": tree(t), "rounds": rounds(r, t, edit)}


def main():
    c = Check("C16")
    r = rng("toml")
    res = model_check("TomlMC", "SPECIFICATION Spec\nINVARIANT WriteRead Located EditLaws Forms Export\n", env={"DEPTH": tier("2", "3")}, timeout=6000)
    c.add_tlc(res)
    recs, states = [], site_.states(res)
    c.cov["files_of_the_model"] = len(states)

    def small_edit(r, t):
        places = list(nodes(t))
        p, v = r.choice(places)
        new = r.choice([2, {"b": 2}, [{}], "s", {"b": {"a": 2}}])
        if isinstance(v, list):
            if v and r.random() < .5:
                v.pop()
                return {"op": "cut", "path": steps(p), "val": tree(0)}
            v.append(copy.deepcopy(new))
            return {"op": "append", "path": steps(p), "val": tree(new)}
        k = r.choice("ab")
        if k in v and r.random() < .5:
            del v[k]
            return {"op": "del", "path": steps(p + (k,)), "val": tree(0)}
        v[k] = copy.deepcopy(new)
        return {"op": "put", "path": steps(p + (k,)), "val": tree(new)}

    for s in r.sample(states, min(len(states), tier(2000, 40000))):
        recs.append({"kind": "toml", "doc": s["doc"], "rounds": rounds(r, meaning(s["doc"]), small_edit, (1, 1, 2))})
    recs += [random_toml(r) for _ in range(tier(2500, 40000))]
    recs += [random_other(r, k) for k in ("ini", "wheel", "csv", "json") for _ in range(tier(250, 3000))]
    for x in recs:
        x["seed"] = r.randrange(10 ** 9)
    out = run_drivers("d_toml.py", split(recs), timeout=tier(600, 8000))
    c.cov["saved_files"] = sum(len(x["rounds"]) for x in out)
    c.cov["rule"] = ("laws of the meaning of toml files and of edits on every valid file of two (thorough: three) statements (TLC); these files and seeded ones, written in many styles with comments, are "
                     "read, saved unchanged, edited, saved and read again through pkm's configuration files; entry points, WHEEL, RECORD and json files likewise")
    c.judge("TomlTrace", out, key=lambda rec, cl: cl, timeout=tier(600, 6000))
    return c.finish()
