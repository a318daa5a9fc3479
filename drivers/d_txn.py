"""performs the operations of a transaction on real files and lets it commit or fail

input records: {fs: {path: "none" | "dir" | content}, ops, raises}"""
import os
import shutil
import tempfile
from pathlib import Path

from common import main, err_name, silent
from pkm.utils.files import CopyTransaction

PATHS = ["d", "d/a", "d/e", "d/e/b", "c"]


class Stop(Exception):
    ...


def build(root: Path, fs, outside: Path):
    for p in PATHS:
        v = fs[p]
        if v == "dir":
            (root / p).mkdir()
        elif v == "link":
            (root / p).symlink_to(outside)
        elif v != "none":
            (root / p).write_text(v)


def look(root: Path):
    res = {}
    for p in PATHS:
        f = root / p
        if f.is_symlink():
            res[p] = "link"
        elif f.is_dir():
            res[p] = "dir"
        else:
            res[p] = f.read_text() if f.exists() else "none"
    return res


def perform(ct, o, root: Path, src: Path):
    p = root / o["p"]
    if o["k"] == "copy":
        (src / "f").write_text(o["c"])
        ct.copy(src / "f", p)
    elif o["k"] == "write":
        ct.reserve(p).write_text(o["c"])
    elif o["k"] == "mkdir":
        ct.mkdir(p)
    elif o["k"] == "rm":
        ct.rm(p)
    else:
        t = src / "t"
        (t / "e").mkdir(parents=True, exist_ok=True)
        (t / "a").write_text(o["c"] + "-tree-a")
        (t / "e" / "b").write_text(o["c"] + "-tree-b")
        ct.copy_tree(t, p)


def run(recs):
    base = Path(tempfile.mkdtemp())
    outside = base / "outside"
    outside.write_text("outside")
    temps = base / "tmp"
    temps.mkdir()
    tempfile.tempdir = str(temps)
    for i, rec in enumerate(recs):
        root, src = base / f"r{i}", base / f"s{i}"
        root.mkdir()
        src.mkdir()
        build(root, rec["fs"], outside)
        out = {"fs0": rec["fs"], "ops": rec["ops"], "raises": rec["raises"], "out": "ok", "error": ""}
        ct = CopyTransaction()
        try:
            with silent(), ct:
                for o in rec["ops"]:
                    perform(ct, o, root, src)
                if rec["raises"]:
                    raise Stop()
        except Exception as e:
            out["out"], out["error"] = "error", err_name(e)
        out["fs"] = look(root)
        if outside.read_text() != "outside":
            out["fs"]["c"] = "written through the link"
            outside.write_text("outside")
        out["made"] = sorted(str(x.relative_to(root)) for x in ct.copied_files)
        out["temp"] = len(os.listdir(temps))
        for x in temps.iterdir():
            shutil.rmtree(x, ignore_errors=True)
        shutil.rmtree(root)
        shutil.rmtree(src)
        yield out


if __name__ == "__main__":
    main(run)
