"""versions, specifiers and dependencies of the specification as text and objects of pkm"""
from pkm.api.versions.version import Version
from pkm.api.versions.version_specifiers import VersionSpecifier


def ver(v):
    s = f"{v['e']}!" if v["e"] else ""
    s += ".".join(map(str, v["r"]))
    if v["pre"]:
        s += ["a", "b", "rc"][v["pre"][0]] + str(v["pre"][1])
    if v["post"] >= 0:
        s += f".post{v['post']}"
    if v["dev"] >= 0:
        s += f".dev{v['dev']}"
    return Version.parse(s)


def text(s):
    return text(s["a"]) + ", " + text(s["b"]) if s["k"] == "and" else s["text"]


def spec(s):
    return VersionSpecifier.parse(text(s))


def dep_text(d):
    name = d.get("name") or f"p{d['q']}"
    extras = f"[{','.join(d['x'])}]" if d["x"] else ""
    sp = text(d["s"])
    sp = "" if sp == "*" else " " + sp
    marks = []
    if d["cond"]:
        m = " or ".join(f"extra == '{x}'" for x in d["cond"])
        marks.append(f"({m})" if len(d["cond"]) > 1 else m)
    if not d["on"]:
        marks.append("sys_platform == 'nowhere'")
    elif d.get("mark"):
        marks.append("python_version >= '3'")
    return f"{name}{extras}{sp}" + (" ; " + " and ".join(marks) if marks else "")
