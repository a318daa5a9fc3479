"""C21: what is built from a project (specs/Build.tla)"""
import re
from vlib import *
import site_

NAMES = ["foo", "foo-bar", "Foo.Bar", "foo_bar-baz", "f2", "A", "foo--bar", "x.y-z"]
ODD_VERSIONS = [("1.0", "1.0"), ("1", "1"), ("1.0.0-1", "1.0.0.post1"), ("2.0b1", "2.0b1"), ("1.0.dev3", "1.0.dev3"), ("1.0+local.1", "1.0+local.1"), ("1!2.0", "1!2.0"), ("1.2.3rc1", "1.2.3rc1"), ("0.4.60.1", "0.4.60.1")]
TEXTS = ["short", "ünïcode ☃", "a longer summary which certainly has more than the seventy eight characters that a line of an e-mail may have, and then some",
         "https://example.com/" + "x" * 120, "colon: in, it; \"quoted\" <and> 'more'", "percent % and \\ back", "=?utf-8?q?no?="[:0] + "trailing dot."]
LONG = ["", "# Title\n\nFrom here on\n\n    code: x\n\nKey: value\n", "one line", "ünï ☃\n\n\nlast", "Name: other\nVersion: 9\n\ntext", "- a\n- b\n" + "long " * 60]
PEOPLE = ["Ann", "A. B. Cee", "Jürgen Müller", "O'Neil (x)", "Quote \"Q\" Quote", "Back\\slash", "Name@home", "Mid <angle>"]
COMMA = ["Doe, John", "Smith; Jr., A"]
MARKERS = [("", True)] * 6 + [("python_version >= '3.8'", True), ("python_version < '3'", False), ("sys_platform == 'win32'", False), ('os_name == "posix"', True),
                              ("sys_platform == 'win32' or python_version >= '3'", True), ("os_name == 'nt' or sys_platform == 'win32'", False), ("os_name == 'posix' and python_version < '3'", False),
                              ("(python_version >= '3' or os_name == 'nt') and sys_platform != 'win32'", True)]
REQS = ["aa", "bb>=1.0", "cc[x]==1.2.3", "dd[x,y]>=1.0,<2.0", "ee~=1.4", "ff!=1.5", "gg-hh==1.*", "I.J", "kk>=1,<3", "ll[z]", "mm<2"]
EXTRAS = ["test", "docs", "dev-tools", "e1", "x-y"]
GROUPS = ["foo.plugins", "pytest11", "my group"[:2] + ".g", "a-b"]


def q(s):
    """a TOML basic string"""
    return json.dumps(s, ensure_ascii=False).replace("\x7f", "\\u007f")


def strings(xs, r):
    return "[" + (", " if r.random() < .7 else ",\n    ").join(q(x) for x in xs) + ("," if xs and r.random() < .3 else "") + "]"


def contact(r):
    u = r.random()
    mail = r.choice(["a@b.c", "first.last@example.org", "x+y@z.io"])
    if u < .3:
        return {"name": r.choice(PEOPLE), "email": ""}
    if u < .5:
        return {"name": "", "email": mail}
    return {"name": r.choice(PEOPLE + COMMA), "email": mail}


def canonical(name):
    return re.sub(r"[-_.]+", "-", name).lower()


def dependencies(r, pool, extra=None):
    res = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        if not pool:
            break
        t = pool.pop()
        if len(pool) < len(REQS) - 2 and r.random() < .3:  # the package of another one, too
            t = re.match(r"[\w.-]+", r.choice([x for x in REQS if x not in pool])).group() + r.choice(["", ">=1.3", "<3", "[w]"])
        m, holds = r.choice(MARKERS)
        if extra and r.random() < .25:
            m, holds = r.choice([(f"extra == '{extra}'", True), (f'extra=="{extra}"', True), (f"(extra == '{extra}')", True), (f"extra == '{extra}' and python_version < '3'", False),
                                 (f"python_version >= '3' and extra == '{extra}'", True), (f"extra == '{extra}' or python_version < '3'", True)])
        sep = r.choice([";", " ; ", "; "])
        res.append({"txt": t + (sep + m if m else ""), "holds": holds, "req": ""})
    return res


def text_of(r, kind, suffixes):
    """readme or license: how it is configured, its text and its file"""
    k = r.choice(kind)
    t = r.choice(LONG[1:]) + ("" if suffixes[0] == ".md" else "\n(c) me\n")
    res = {"kind": k, "text": "", "raw": t, "path": [], "suffix": "", "type": ""}
    if k == "none":
        return res
    res["text"] = t.strip() if suffixes[0] == ".md" else "\n".join(x.strip() for x in t.strip().splitlines())
    if k != "text":
        res["suffix"] = r.choice(suffixes)
        res["path"] = [["docs"], []][r.random() < .8] + [r.choice(["README", "about", "LICENSE x", "läs"]) + res["suffix"]]
    return res


def project(r, files=None, listed=None, layout=None):
    layout = layout or r.choice(["src", "src", "flat", "listed"])
    p = {"layout": layout, "name": r.choice(NAMES), "listed": listed or []}
    p["key"] = canonical(p["name"])
    if r.random() < .65:
        p["ver"] = {"rel": [r.choice([0, 1, 9]), r.choice([0, 2, 9, 10]), r.choice([0, 3, 99])], "txt": ""}
        spelled = ".".join(map(str, p["ver"]["rel"]))
    else:
        spelled, txt = r.choice(ODD_VERSIONS)
        p["ver"] = {"rel": [0, 0, 0], "txt": txt}
    if files is None:
        pk = r.sample(["foo", "bar", "foo_bar", "ünï", "with space"], r.choice([1, 1, 2, 3]))
        base = {"src": ["src"], "flat": []}.get(layout)
        paths = []
        for n in pk:
            d = (base if base is not None else r.choice([["src"], ["lib"], ["a", "b"], []])) + [n]
            if layout == "listed":
                p["listed"].append(d)
            if layout != "src" or r.random() < .8:
                paths.append(d + ["__init__.py"])
            for rest in r.sample([["m.py"], ["data", "t.txt"], ["sub", "__init__.py"], ["sub", "deep", "x.bin"], ["__pycache__", "m.cpython-312.pyc"], ["sub", "__pycache__", "c.pyc"], [".hidden"], ["name with space.txt"],
                                  ["é.py"], ["a,b.txt"], ["q\"uote.txt"], ["dist", "d.py"], ["etc", "e.cfg"], ["x.pyc"], ["RECORD"], ["src", "s.py"], ["Upper.PY"]], r.choice([0, 1, 3, 5])):
                paths.append(d + rest)
            if layout == "src" and not any(x[:2] == d for x in paths):
                paths.append(d + ["m.py"])
        where = base if base is not None else []
        for extra in r.sample([["__pycache__", "z.pyc"], [".git", "HEAD"], [".idea", "x.xml"], ["foo.egg-info", "PKG-INFO"], ["build", "lib.txt"], ["env", "pyvenv.cfg"], ["single.py"]], r.choice([0, 1, 2])):
            paths.append(where + extra)
        for extra in r.sample([["docs", "index.md"], ["setup.cfg"], [".venv", "pyvenv.cfg"], [".venv", "lib", "a.py"], ["dist", "old.whl"], ["etc", "pkm", "note.txt"], ["tests", "test_a.py"], ["tests", "__init__.py"]],
                              r.choice([0, 2, 3])):
            paths.append(extra)
        files, seen = [], set()
        for x in paths:
            if tuple(x) not in seen:
                seen.add(tuple(x))
                files.append({"path": x, "id": len(files) + 1})
    p["files"] = [dict(f) for f in files]
    p["readme"] = text_of(r, ["none", "name", "name", "file", "file", "text"], [".md", ".rst", ".txt", ""])
    p["license"] = text_of(r, ["none", "file", "text"], [".txt", ""])
    if p["readme"]["path"] == p["license"]["path"] and p["readme"]["path"]:
        p["license"].update(kind="text", path=[])
    if p["readme"]["kind"] in ("file", "text") and r.random() < .4:
        p["readme"]["type"] = r.choice(["text/markdown", "text/plain", "text/x-rst"])
    for k in ("readme", "license"):
        if p[k]["path"]:
            p["files"] = [f for f in p["files"] if f["path"] != p[k]["path"]] + [{"path": p[k]["path"], "id": 500 + len(p["files"])}]
    if p["readme"]["path"] and p["license"]["path"] and r.random() < .1:
        pass
    p["summary"] = r.choice([""] + TEXTS)
    p["authors"] = [contact(r) for _ in range(r.choice([0, 0, 1, 2, 3]))]
    p["maintainers"] = [contact(r) for _ in range(r.choice([0, 0, 1, 2]))]
    p["keywords"] = r.sample(["egg", "two words", "ünï", "k3", "x-y"], r.choice([0, 0, 1, 3]))
    p["classifiers"] = r.sample(["Development Status :: 4 - Beta", "Programming Language :: Python", "Topic :: Software Development :: Build Tools and something that is even longer than seventy eight"], r.choice([0, 0, 1, 3]))
    p["urls"] = [{"label": k, "url": u} for k, u in r.sample([("homepage", "https://example.com"), ("Source Code", "https://github.com/a/b?x=1,2#y"), ("changelog", "https://x.y/" + "z" * 90)], r.choice([0, 0, 1, 3]))]
    lo, hi, spec = r.choice([(6, 0, ""), (6, 0, ""), (8, 0, ">=3.8"), (8, 13, ">=3.8,<3.13"), (6, 0, ">=3"), (6, 0, "<4"), (9, 0, ">=3.9,<4.0"), (10, 0, ">= 3.10"), (6, 0, ">=3.6,<4"), (12, 13, "==3.12.*"), (6, 12, "<3.12"), (11, 0, "~=3.11")])
    p["python"] = {"lo": lo, "hi": hi}
    pool = r.sample(REQS, len(REQS))
    p["deps"] = dependencies(r, pool)
    p["groups"] = []
    for e in r.sample(EXTRAS, r.choice([0, 0, 1, 2, 3])):
        p["groups"].append({"extra": e, "deps": dependencies(r, pool, e)})
    values = ["foo:main", "foo.sub:Cls.run", "foo : main", "foo_bar.x:y [extra]"]
    scripts = [(n, r.choice(values[:3])) for n in r.sample(["run", "foo-cli", "Foo.Bar", "x_y"], r.choice([0, 0, 1, 2]))]
    guis = [(n, r.choice(values[:3])) for n in r.sample(["gui", "run2", "win.exe"], r.choice([0, 0, 1]))]
    others = [(g, [(n, r.choice(["foo", "foo:main", "foo.sub:Cls.run", "foo:main [test]"])) for n in r.sample(["a", "b b"[:1] + "b", "C", "d.e", "f-g"], r.choice([1, 2]))]) for g in r.sample(GROUPS, r.choice([0, 0, 1, 2]))]
    squeeze = lambda v: re.sub(r"\s", "", v)
    p["entry"] = [{"group": "console_scripts", "name": n, "value": squeeze(v)} for n, v in scripts] + [{"group": "gui_scripts", "name": n, "value": squeeze(v)} for n, v in guis] \
        + [{"group": g, "name": n, "value": squeeze(v)} for g, es in others for n, v in es]
    # the text of the configuration
    t = ["[project]", f"name = {q(p['name'])}", f"version = {q(spelled)}"]
    if p["summary"]:
        t.append(f"description = {q(p['summary'])}")
    tables = []
    for k in ("readme", "license"):
        x = p[k]
        if x["kind"] == "name":
            t.append(f"{k} = {q('/'.join(x['path']))}")
        elif x["kind"] != "none":
            items = [("file", "/".join(x["path"])) if x["kind"] == "file" else ("text", x["raw"])] + ([("content-type", x["type"])] if x["type"] else [])
            how = r.choice(["inline", "dotted", "table"])
            if how == "inline":
                t.append(f"{k} = {{" + ", ".join(f"{a} = {q(b)}" for a, b in items) + "}")
            elif how == "dotted":
                t += [f"{k}.{a} = {q(b)}" for a, b in items]
            else:
                tables.append(f"[project.{k}]\n" + "\n".join(f"{a} = {q(b)}" for a, b in items))
    for k in ("authors", "maintainers"):
        one = lambda c: ", ".join(f"{a} = {q(c[a])}" for a in ("name", "email") if c[a])
        if p[k]:
            t.append(f"{k} = [" + ", ".join("{" + one(c) + "}" for c in p[k]) + "]")
    for k in ("keywords", "classifiers"):
        if p[k]:
            t.append(f"{k} = {strings(p[k], r)}")
    if spec:
        t.append(f"requires-python = {q(spec)}")
    if p["deps"] or r.random() < .3:
        t.append("dependencies = " + strings([d["txt"] for d in p["deps"]], r))
    t += [] if r.random() < .5 else [""]
    if p["groups"]:
        tables.append("[project.optional-dependencies]\n" + "\n".join(f"{q(g['extra'])} = {strings([d['txt'] for d in g['deps']], r)}" for g in p["groups"]))
    if p["urls"]:
        tables.append("[project.urls]\n" + "\n".join(f"{q(u['label'])} = {q(u['url'])}" for u in p["urls"]))
    for k, es in (("scripts", scripts), ("gui-scripts", guis)):
        if es:
            tables.append(f"[project.{k}]\n" + "\n".join(f"{q(n)} = {q(v)}" for n, v in es))
    for g, es in others:
        tables.append(f"[project.entry-points.{q(g)}]\n" + "\n".join(f"{q(n)} = {q(v)}" for n, v in es))
    tables.append('[build-system]\nrequires = ["pkm"]\nbuild-backend = "pkm.api.buildsys"')
    if p["listed"]:
        tables.append(f"[tool.pkm.project]\npackages = {strings(['/'.join(d) for d in p['listed']], r)}")
    if r.random() < .3:
        tables.append("[tool.other]\nx = 1\n[tool.other.deep]\ny = [1, 2]")
    r.shuffle(tables)
    p["toml"] = "\n".join(t) + "\n" + "\n\n".join(tables) + "\n"
    p["extras"] = []
    for g in p["groups"]:
        g["extra"] = g["extra"]
    return p


def canonical_extras(p):
    for g in p["groups"]:
        g["extra"] = canonical(g["extra"])
    return p


def op(r, p, k, **kw):
    return {"k": k, "part": r.choice(["major", "minor", "patch"]), "keep": r.random() < .5, "path": [], "id": 0, "fresh": r.random() < .5, "away": r.random() < .7, **kw}


def history(r, p):
    ops, files = [], [f["path"] for f in p["files"]]
    texts = [p["readme"]["path"], p["license"]["path"]]
    n = r.choice([1, 2, 3, 5])
    while len(ops) < n:
        k = r.choice(["build"] * 4 + ["wheel", "sdist", "editable", "meta", "deps"] * 2 + ["bump", "bump", "clean", "add", "del"])
        if k == "bump" and p["ver"]["txt"]:
            continue
        if k == "add":
            near = r.choice([f for f in files if f not in texts] or [["src", "foo", "x"]])
            path = near[:-1] + [r.choice([near[-1], "added.py", "Added.txt"])]
            if path in texts or len(path) < 2 or path[0] == "dist":
                continue
            ops.append(op(r, p, k, path=path, id=1000 + len(ops)))
            files = [f for f in files if f != path] + [path]
        elif k == "del":
            can = [f for f in files if f not in texts]
            if not can:
                continue
            path = r.choice(can)
            if path == ["dist", "old.whl"]:
                continue
            files.remove(path)
            ops.append(op(r, p, k, path=path))
        else:
            ops.append(op(r, p, k))
    # something is looked at in the end
    if ops[-1]["k"] in ("add", "del", "bump", "clean"):
        ops.append(op(r, p, r.choice(["build", "build", "wheel", "sdist", "editable"])))
    return {"p": canonical_extras(p), "ops": ops, "seed": r.randrange(10 ** 9)}


def modelled(r, s):
    files = [f for f in s["files"] if f["path"] != ["README.md"]]
    p = project(r, files, [list(x) for x in s["listed"]], "listed" if s["listed"] else "src")
    for k in ("readme", "license"):
        if p[k]["path"] and p[k]["path"][0] == "docs":
            return None
    p["ver"]["txt"] or None
    ops = [op(r, p, o["k"], part=o["part"] or "minor", keep=o["keep"], path=o["path"], id=o["id"]) for o in s["ops"]]
    if any(o["k"] == "bump" for o in ops) and p["ver"]["txt"]:
        return None
    ops.append(op(r, p, "build"))
    return {"p": canonical_extras(p), "ops": ops, "seed": r.randrange(10 ** 9)}


def main():
    c = Check("C21")
    r = rng("build")
    res = model_check("BuildMC", "SPECIFICATION Spec\nINVARIANT Rebuilt Linked Clean Stable Built Export\n", env={"DEPTH": tier("2", "3")}, timeout=6000)
    c.add_tlc(res)
    states = site_.states(res)
    c.cov["histories_of_the_model"] = len(states)
    recs = [x for s in r.sample(states, min(len(states), tier(500, 12000))) if (x := modelled(r, s))]
    recs += [history(r, project(r)) for _ in range(tier(700, 20000))]
    out = run_drivers("d_build.py", split(recs), timeout=tier(600, 8000))
    c.cov["operations"] = sum(len(x["ops"]) for x in out)
    c.cov["rule"] = ("laws of building on every small project and short history (TLC), histories exported by TLC and seeded ones replayed on projects with random configurations: distributions, wheels, source distributions "
                     "(unpacked and built again), editable wheels and metadata, read with zipfile, tarfile, email, importlib.metadata, packaging and tomllib")
    c.judge("BuildTrace", out, key=lambda rec, cl: cl, timeout=tier(600, 6000))
    return c.finish()
