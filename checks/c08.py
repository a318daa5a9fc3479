"""C08: the files of the installed packages, their records, corrupted wheels (specs/Files.tla)"""
from vlib import *
import site_

ODD = ["with space.txt", "comma, quote\".txt", "a'b.txt", "UPPER.Txt", "x.tar.gz", "no_ext", "#hash.txt", "ab\u00fc.txt", "dash-name.dat"]


def contents(r, W):
    """the files of every wheel of the world; no two packages own the same path"""
    W["files"], W["pure"], W["corrupt"] = [], [], []
    ns = r.random() < .5
    for p in range(W["n"]):
        key = "_".join(W["words"][p])
        fs, pu = [], []
        single = r.random() < .25
        for i, v in enumerate(W["vers"][p]):
            tag = f"{key} {i}"
            f = []

            def add(k, path, text, **more):
                if all((x["k"], x["path"]) != (k, path) for x in f):
                    f.append({"k": k, "path": path, "text": text, **more})
            pure = r.random() < .8
            if single:
                add("lib", f"{key}.py", f"V = '{tag}'\ndef main():\n    print(V)\n")
            else:
                add("lib", f"{key}/__init__.py", f"V = '{tag}'\ndef main():\n    print(V)\n")
                for m in range(r.randint(0, 2)):
                    add("lib", f"{key}/sub{r.randint(0, 1)}/m{m}.py", f"X = '{tag} {m}'\n")
                if r.random() < .3:
                    add("lib", f"{key}/{r.choice(ODD)}", f"{tag} odd\r\n\xff" if r.random() < .5 else "")
                if r.random() < .15:
                    add("lib", f"{key}/template.py", "def broken(:\n")
            if ns and r.random() < .6:
                add("lib", f"ns/{key}_mod.py", f"N = '{tag}'\n")
                if r.random() < .5:
                    add("lib", f"ns/deep/{key}_d.py", f"N = '{tag}'\n")
            if r.random() < .3:
                add("scripts", f"{key}-run{r.choice(['', '.sh'])}", r.choice(["#!python\n", "#!/bin/sh\n", "plain\n"]) + f"# {tag}\n")
            if r.random() < .15:
                add("scripts", f"dir_{key}/tool", f"#!python\n# {tag}\n")
            if r.random() < .3:
                add("data", f"share/{key}/{r.choice(['a.txt', 'b.txt'])}", f"{tag} data")
            if r.random() < .15:
                add("headers", f"{key}.h", f"// {tag}\n")
            if r.random() < .15:
                add(r.choice(["purelib", "platlib"]), f"{key}_extra.py", f"E = '{tag}'\n")
            if r.random() < .25:  # library files whose path is the path of another file below the data directory, or repeats it elsewhere
                e = r.choice(f)
                if e["k"] != "lib":
                    add("lib", f"{e['k']}/{e['path']}", f"{tag} a library file")
                else:
                    add("data", f"{key}/{e['path']}", f"{tag} a data file")
            if r.random() < .4:
                add("entry", f"{key}-cli", "", ref=f"{key}:main", prints=f"{tag} 0", group="console_scripts")
            if r.random() < .1:
                add("entry", f"{key}.gui", "", ref=f"{key}:main", prints=f"{tag} 0", group="gui_scripts")
            r.shuffle(f)
            fs.append(f)
            pu.append(pure)
        W["files"].append(fs)
        W["pure"].append(pu)
        W["corrupt"].append([""] * len(W["vers"][p]))


def scenario(r):
    while True:
        W = site_.world(r)
        if W["n"] <= 4:
            break
    contents(r, W)
    damaged = r.random() < .25
    if damaged:
        for p in range(W["n"]):
            for i in range(len(W["vers"][p])):
                if r.random() < .35:
                    W["corrupt"][p][i] = r.choice(["hash", "unlisted", "no-record", "wheel-version", "two-distinfo"])
    ops = []
    for op in site_.history(r, W, r.randint(3, 7)):
        op["d"] = [d for d in op["d"]]
        if r.random() < .3:
            p = r.randrange(W["n"])
            i = r.randrange(len(W["vers"][p]))
            e = r.choice(W["files"][p][i])
            root = {"lib": "pure" if W["pure"][p][i] else "plat", "purelib": "pure", "platlib": "plat", "scripts": "scripts",
                    "entry": "scripts", "data": "data", "headers": "data"}[e["k"]]
            path = ("headers/" if e["k"] == "headers" else "") + e["path"]
            k = r.choice(["foreign", "foreign", "link", "run", "neighbour"])
            if k == "link" and e["k"] == "entry":
                k = "foreign"
            if k == "neighbour":  # a file of the user next to the files of a package
                d = path.rsplit("/", 1)[0] + "/" if "/" in path else ""
                ops.append({"k": "foreign", "root": root, "path": d + r.choice(["mine.py", "notes.txt"]), "text": "mine"})
            else:
                ops.append({"k": k, "root": root, "path": path, "text": "somebody else's", "p": p + 1})
        ops.append(op)
    return {"W": W, "ops": ops, "mode": r.choice(["none", "thread", "thread", "proc"]) if not damaged else r.choice(["none", "thread"]),
            "run": r.random() < .35 and all(o["k"] in ("install", "uninstall", "remove") for o in ops), "damaged": damaged}


def main():
    c = Check("C08")
    r = rng("wheels")
    recs = [scenario(r) for _ in range(tier(1400, 9000))]
    out = run_drivers("d_wheels.py", split(recs), timeout=tier(700, 8000))
    c.cov["operations"] = len(out)
    c.cov["failed_on_damaged_wheels"] = sum(x["out"] == "error" for x in out)
    c.cov["entry_points_executed"] = sum(len(x["ran"]) for x in out)
    c.cov["rule"] = "seeded histories of installations, updates and removals of generated wheels in worlds of up to 4 packages x 4 versions"
    c.judge("FilesTrace", out, key=lambda rec, cl: cl, timeout=tier(700, 8000))
    return c.finish()
