"""C18: what the text of a requirement says (specs/Requirement.tla)"""
from vlib import *
from specgen import *
from c01 import rand_version, neighbour, canon, spell
import site_

WORDS = ["foo", "bar", "x", "py3", "2to", "4suite", "Zed", "a1", "pkg", "J", "7z"]
EXTRAS = ["fast", "slow", "2fa", "All_in", "dev-tools", "x.y", "J"]
TEXTS = {"os_name": ["posix", "nt", "java"], "sys_platform": ["linux", "win32", "darwin", "cygwin", "2bsd"], "platform_machine": ["x86_64", "AMD64", "i386", "386", "arm64"],
         "platform_python_implementation": ["CPython", "PyPy", "Jython"], "platform_system": ["Linux", "Windows", "Darwin", "Java", ""],
         "platform_release": ["5.10.0-generic", "5.10.0-azure", "5.10", "20.6.0", "6.1.0-2-amd64", "10"], "platform_version": ["#1 SMP Debian 5.10", "10.0.19041", "Darwin Kernel Version 20.6.0: x; root:y/z", "2"],
         "implementation_name": ["cpython", "pypy", "jython"], "python_version": ["2.7", "3.7", "3.8", "3.9", "3.10", "3.11"], "python_full_version": ["2.7.18", "3.8.0", "3.9.1", "3.10.0", "3.10.12"],
         "implementation_version": ["3.8.0", "3.9.1", "7.3.5", "3.10.0"]}
NONE = {"k": "none"}
URLS = ["https://example.com/x-1.0.zip", "https://Example.com/Some/File-1.0.ZIP#sha256=ABC", "git+https://github.com/a/B.git@Main", "file:///tmp/A%20b/x.whl", "http://h/?q=1;p=2,3", "git+ssh://git@h/x.git",
        "https://h.org/x.tar.gz#egg=x&subdirectory=Sub"]


def ver(s):
    ps = s.split(".")
    return [V(tuple(int(p) for p in ps))] if s and all(p.isdigit() for p in ps) else []


def lit(s, w=False):
    return {"k": "str", "s": s, "v": ver(s), "w": w}


def atom_(r, env):
    u = r.random()
    if u < .2:
        return {"k": "extra", "x": r.choice(EXTRAS)}
    n = r.choice(list(TEXTS))
    var, s = {"k": "var", "n": n}, r.choice(TEXTS[n])
    if u < .3:
        many = r.choice([" ", ", ", "|"]).join(r.sample(TEXTS[n], 2))
        l, rr = (var, lit(many)) if r.random() < .6 else (lit(s[:r.choice([0, 1, 2, 3])]), var)
        return {"k": "cmp", "op": r.choice(["in", "not in"]), "l": l, "r": rr}
    if u < .36:
        return {"k": "cmp", "op": "===", "l": var, "r": lit(s)}
    if n in ("python_version", "python_full_version", "implementation_version") and u < .9:
        s = r.choice([s, s, s.rsplit(".", 1)[0] if s.count(".") > 1 else s, s + ".0", "3"])
        if u < .45:
            return {"k": "cmp", "op": r.choice(["==", "!="]), "l": var, "r": lit(s, True)}
        op = r.choice(["<", "<=", ">", ">=", "==", "!=", "~="])
        if op == "~=" and "." not in s:
            op = "=="
        return {"k": "cmp", "op": op, "l": lit(s), "r": var} if r.random() < .2 and op != "~=" else {"k": "cmp", "op": op, "l": var, "r": lit(s)}
    op = r.choice(["==", "==", "!="])
    return {"k": "cmp", "op": op, "l": lit(s), "r": var} if r.random() < .2 else {"k": "cmp", "op": op, "l": var, "r": lit(s)}


def extras_in(m):
    return 1 if m["k"] == "extra" else extras_in(m["l"]) + extras_in(m["r"]) if m["k"] in ("and", "or") else 0


def marker(r, d):
    if d == 0 or r.random() < .2:
        return atom_(r, None)
    while True:
        m = {"k": r.choice(["and", "and", "or"]), "l": marker(r, d - 1), "r": marker(r, d - 1)}
        if m["k"] == "or" or extras_in(m["l"]) * extras_in(m["r"]) == 0:
            return m


def case(r):
    return {"env": {n: {"s": s, "v": ver(s)} for n, s in ((n, r.choice(ss)) for n, ss in TEXTS.items())}, "extras": r.sample(EXTRAS, r.choice([0, 0, 1, 1, 2]))}


def write(r, m, within=""):
    """text of a marker"""
    sp = lambda: r.choice([" ", " ", "  ", "\t"])
    gap = lambda: r.choice(["", " ", " "])
    if m["k"] == "extra":
        q = r.choice("'\"")
        s = [f"extra", f"{q}{m['x']}{q}"]
        if r.random() < .15:
            s.reverse()
        text = s[0] + gap() + "==" + gap() + s[1]
    elif m["k"] == "cmp":
        def term(t):
            if t["k"] == "var":
                return t["n"]
            q = r.choice("'\"")
            return q + t["s"] + (".*" if t["w"] else "") + q
        a, b, op = term(m["l"]), term(m["r"]), m["op"]
        if op == "not in":
            op = "not" + sp() + "in"
        g = (lambda: sp()) if op[-1] == "n" else gap
        text = a + g() + op + g() + b
    else:
        text = write(r, m["l"], m["k"]) + sp() + m["k"] + sp() + write(r, m["r"], m["k"])
        if m["k"] == "or" and within == "and":
            return f"({gap()}{text}{gap()})"
    return f"({gap()}{text}{gap()})" if r.random() < .12 else text


def requirement(r, m):
    words = [r.choice(WORDS) for _ in range(r.choice([1, 1, 2, 3]))]
    name = words[0]
    for w in words[1:]:
        name += r.choice(["-", "_", ".", "-", "--", "_."]) + w
    name = r.choice([name, name, name.upper(), name.lower()])
    key = "-".join(w.lower() for w in words)
    x = r.sample(EXTRAS, r.choice([0, 0, 1, 2]))
    url = r.choice(URLS) if r.random() < .12 else ""
    parts = []
    number = 0 if url else r.choice([0, 0, 1, 1, 2, 3, 4])
    many = number > 1  # then the versions are no post-releases (see C02)
    base = rand_version(r)
    while len(parts) < number:
        v = neighbour(r, base) if many else base
        v["loc"] = []
        if many:
            v["post"] = -1
        if r.random() < .6:
            v.update(pre=[], post=-1, dev=-1)
        if r.random() < .2:
            v.update(pre=[], post=-1, dev=-1)
            op = r.choice(["==", "!="])
            parts.append((wild(op, v), op + r.choice(["", " "]) + canon(v) + ".*"))
            continue
        op = r.choice([">=", "<", "==", "!=", "<=", ">", "~="])
        if op == "~=" and len(v["r"]) < 2:
            v["r"].append(3)
        s = cmp_(op, v)
        t = spell(r, v).strip() if r.random() < .4 else canon(v)
        parts.append((s, op + r.choice(["", " "]) + t))
    if not url and not parts and r.random() < .08:
        v = rand_version(r)
        v.update(loc=[])
        parts.append((cmp_("==", v), "===" + r.choice(["", " "]) + canon(v)))
    spec = ALL
    for s, _ in parts:
        spec = s if spec is ALL else {"k": "and", "a": spec, "b": s}
    text = r.choice(["", "", " "]) + name
    g = lambda: r.choice(["", "", " "])
    if x or r.random() < .03:
        text += g() + "[" + g() + (g() + "," + g()).join(x) + g() + "]"
    if url:
        text += g() + "@" + g() + url
    elif parts:
        body = (g() + "," + g()).join(t for _, t in parts)
        text += g() + (f"({g()}{body}{g()})" if r.random() < .25 else body)
    if m["k"] != "none":
        text += (" " if url else g()) + ";" + g() + write(r, m)
    vs = []
    for s, _ in parts:
        vs += [s["v"]] + [neighbour(r, s["v"]) for _ in range(4)]
    vs = [{**v, "loc": []} for v in vs or [rand_version(r) for _ in range(3)]]
    if many or any(t.startswith("!=") for _, t in parts):
        vs = [v for v in vs if v["post"] < 0]
    if parts and parts[0][1].startswith("==="):
        vs = [v for v in vs if v == spec["v"] or v["r"] != spec["v"]["r"]][:3]
    return {"req": {"key": key, "other": "-".join(w.lower() for w in words[:-1] + ["q"]), "extras": x, "url": url, "spec": spec, "marker": m}, "vs": vs, "ts": [canon(v) for v in vs], "text": text}


def main():
    c = Check("C18")
    r = rng("requirement")
    res = model_check("RequirementMC", "SPECIFICATION Spec\nINVARIANT Commutes MonotoneInExtras OnlyWhatIsNamed Export\n", env={"DEPTH": tier("3", "3")}, timeout=3000)
    c.add_tlc(res)
    recs = []
    for s in site_.states(res):
        recs.append({**requirement(r, s["marker"]), "cases": s["cases"]})
    c.cov["markers_of_the_model"] = len(recs)
    for _ in range(tier(6000, 60000)):
        m = NONE if r.random() < .15 else marker(r, r.choice([0, 1, 1, 2, 3]))
        recs.append({**requirement(r, m), "cases": [case(r) for _ in range(8)]})
    out = run_drivers("d_requirement.py", split(recs), timeout=tier(600, 8000))
    c.cov["rule"] = ("every marker of the model (exported by TLC) and seeded requirements with names, extras, versions, urls and markers in many spellings, parsed by the real code, printed and parsed again; "
                     "which name, extras, url and versions they stand for and in which of the environments they apply is judged")
    c.judge("RequirementTrace", out, key=lambda rec, cl: cl, timeout=tier(600, 6000))
    return c.finish()
