"""C17: artifacts that fit an environment (specs/Tags.tla)"""
from vlib import *
import site_

ENVS = ("linux", "linux", "linux", "linux", "mac", "mac", "win")
NO = {"lo": [], "hi": [], "ne": []}


def env(r):
    os_ = r.choice(ENVS)
    e = {"os": os_, "arch": "", "bits": 64, "libc": "none", "lv": [0, 0], "impl": "pp" if r.random() < .1 else "cp", "py": [3, r.choice([7, 8, 9, 10, 11, 12]), r.choice([0, 1, 7, 13])],
         "debug": r.random() < .1, "mac": [0, 0]}
    if os_ == "linux":
        e["arch"] = r.choice(["x86_64", "x86_64", "aarch64", "i686", "armv7l", "ppc64le", "s390x"])
        e["bits"] = 32 if e["arch"] in ("i686", "armv7l") or (e["arch"] in ("x86_64", "aarch64") and r.random() < .2) else 64
        e["libc"] = r.choice(["glibc", "glibc", "glibc", "musl", "musl", "none"])
        e["lv"] = {"glibc": [2, r.choice([5, 12, 17, 24, 28, 31, 35])], "musl": [1, r.choice([1, 2])], "none": [0, 0]}[e["libc"]]
    elif os_ == "mac":
        e["arch"] = r.choice(["x86_64", "arm64"])
        e["mac"] = r.choice([[11, 0], [12, 0], [13, 0], [14, 0]] + ([[10, 9], [10, 15], [10, 14]] if e["arch"] == "x86_64" else []))
    else:
        e["arch"] = r.choice(["amd64", "win32", "arm64"])
        e["bits"] = 32 if e["arch"] == "win32" else 64
    if e["impl"] == "pp":
        e["debug"] = False
    return e


def platform(r, e):
    if r.random() < .2:
        e = env(r)  # a platform of another machine
    if r.random() < .15:
        return {"k": "any", "v": [], "arch": ""}
    if e["os"] == "win":
        return {"k": "win", "v": [], "arch": e["arch"]}
    if e["os"] == "mac":
        v = r.choice([[10, 6], [10, 9], [10, 12], [10, 15], [11, 0], [12, 0], [13, 0], [e["mac"][0], e["mac"][1] if e["mac"][0] < 11 else 0]])
        return {"k": "macosx", "v": v, "arch": r.choice([e["arch"] if v[0] > 10 else "x86_64", "universal2"] + (["intel", "x86_64"] if v[0] == 10 else []))}
    arch = {"x86_64": "i686", "aarch64": "armv7l"}.get(e["arch"], e["arch"]) if e["bits"] == 32 and r.random() < .8 else e["arch"]
    k = r.choice(["linux", "manylinux", "manylinux", "musllinux", {"glibc": "manylinux", "musl": "musllinux", "none": "linux"}[e["libc"]]])
    v = {"linux": [], "manylinux": [2, r.choice([5, 12, 17, 17, 24, 28, 31, 36, max(e["lv"][1], 5)])], "musllinux": [1, r.choice([1, 2, 2, 3])]}[k]
    return {"k": k, "v": v, "arch": arch}


def wheel(r, e):
    py = e["py"][:2]
    u = r.random()
    near = [3, max(6, py[1] + r.choice([-3, -2, -1, 0, 0, 1, 2]))]
    none = {"k": "none", "v": [], "f": ""}
    if u < .35:
        i, a = [{"n": "py", "v": r.choice([[3], [3], [2], near, near, py])} for _ in range(r.choice([1, 1, 2]))], [none]
    elif u < .55:
        i, a = [{"n": "cp", "v": near} for _ in range(1)], [{"k": "abi3", "v": [], "f": ""}]
        if r.random() < .2:
            i.append({"n": "cp", "v": [3, 6]})
    elif u < .6:
        i, a = [{"n": e["impl"], "v": py}], [none]
    elif u < .7:
        i, a = [{"n": "pp", "v": near}], [{"k": "pypy", "v": near, "f": ""}]
    else:
        v = r.choice([py, py, near])
        f = r.choice(["m", "m", "dm", ""] if v[1] < 8 else ["", "", "", "d"])
        i, a = [{"n": "cp", "v": v}], [{"k": "cp", "v": v, "f": f}]
        if r.random() < .15 and v == py and f == "":
            i.append({"n": "cp", "v": [3, py[1] + 1]})
            a.append({"k": "cp", "v": [3, py[1] + 1], "f": ""})
    return {"kind": "wheel", "is": i, "as": a, "ps": [platform(r, e) for _ in range(r.choice([1, 1, 1, 2, 3]))], "rp": NO}


def artifact(r, e):
    u = r.random()
    x = wheel(r, e) if u < .8 else {"kind": "sdist" if u < .93 else "junk", "is": [], "as": [], "ps": [], "rp": NO}
    if r.random() < .25:
        m = e["py"][1]
        rp = {"lo": [3, m + r.choice([-2, 0, 0, 1])] if r.random() < .6 else [], "hi": [3, m + r.choice([1, 1, 0, 2])] if r.random() < .4 else [], "ne": [3, m + r.choice([0, -1])] if r.random() < .3 else []}
        if rp["lo"] and r.random() < .3:
            rp["lo"] = rp["lo"] + [r.choice([0, 1, 5])]
        x["rp"] = rp
    return x


def main():
    c = Check("C17")
    r = rng("tags")
    res = model_check("TagsMC", "SPECIFICATION Spec\nINVARIANT Strict Grows OneSystem Portable Show\n", timeout=3000)
    c.add_tlc(res)
    by = {}
    for s in site_.states(res):
        by.setdefault(json.dumps(s["env"], sort_keys=True), []).append(s["tag"])
    recs = []
    for e, tags in sorted(by.items()):
        tags.sort(key=lambda t: json.dumps(t, sort_keys=True))
        arts = [{"kind": "wheel", "is": [t["i"]], "as": [t["a"]], "ps": [t["p"]], "rp": NO} for t in tags]
        r.shuffle(arts)
        n = 4
        recs.append({"env": json.loads(e), "lists": [arts[i:i + n] for i in range(0, len(arts), n)] + [r.sample(arts, min(len(arts), 12)) for _ in range(tier(8, 60))]})
    c.cov["environments_of_the_model"] = len(recs)
    for _ in range(tier(700, 4000)):
        e = env(r)
        recs.append({"env": e, "lists": [[artifact(r, e) for _ in range(r.choice([1, 2, 3, 5, 8]))] for _ in range(tier(12, 20))]})
    for x in recs:
        x["seed"] = r.randrange(10 ** 9)
    out = run_drivers("d_tags.py", split(recs), timeout=tier(600, 8000))
    c.cov["artifacts_tried"] = sum(len(o["arts"]) for o in out)
    c.cov["rule"] = ("every tag of the model in each of its environments, exported by TLC, and seeded lists of artifacts (compressed tag sets, legacy names, python requirements, broken names) in seeded "
                     "environments of all platforms, given to a real environment whose interpreter reports them; each artifact alone and the choice among all are judged")
    c.judge("TagsTrace", out, key=lambda rec, cl: cl, timeout=tier(600, 6000))
    return c.finish()
