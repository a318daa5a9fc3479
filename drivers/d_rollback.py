"""installs real wheels while the k-th access to the disk fails, for every (or some) k

input records: {W, ops: the last one is the one that is disturbed, mode, fault: kind of the failure, share: of the ks}"""
import errno
import hashlib
import os
import shutil
import stat
import sys
import tempfile
import threading
import time
from pathlib import Path

from common import main, err_name, time_limit, silent, rng
from d_wheels import Site
from packs import dep_text
from pkm.api.environments.environment_builder import EnvironmentBuilder
from pkm.api.pkm import pkm
from pkm.resolution.pubgrub import UnsolvableProblemException


class Fault:
    """fails the k-th write below the site (or read of an unpacked file below the temporary directory)"""

    def __init__(self):
        self.armed, self.k, self.n, self.hit, self.lock = False, 0, 0, False, threading.Lock()
        self.site = self.temp = "\0"
        self.quiet = 0
        sys.addaudithook(self.hook)

    def arm(self, site, k, kind):
        self.site, self.temp = str(site) + os.sep, tempfile.gettempdir() + os.sep
        self.k, self.n, self.hit, self.kind, self.armed = k, 0, False, kind, True

    def interesting(self, event, args):
        if event == "open":
            path, mode, flags = args
            if not isinstance(path, (str, bytes, os.PathLike)):
                return False
            path = os.fsdecode(path)
            writes = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)) if flags is not None else "r" not in (mode or "r")
            if ".pyc." in path and self.kind in ("stop", "bug"):  # importlib only cleans up after operating system errors
                return False
            # (a file that is not there is a file without content to pkm: reads do not report it missing)
            return path.startswith(self.site) and writes or path.startswith(self.temp) and not writes and self.kind != "gone"
        if event in ("os.mkdir", "os.chmod", "os.symlink", "shutil.copymode", "shutil.copyfile", "os.truncate"):
            return any(isinstance(a, (str, bytes, os.PathLike)) and os.fsdecode(a).startswith(self.site) for a in args)
        if event in ("os.rename", "shutil.move"):
            if ".pyc." in str(args) and self.kind in ("stop", "bug"):
                return False
            return any(isinstance(a, (str, bytes, os.PathLike)) and os.fsdecode(a).startswith(self.site) for a in args)
        return False

    def hook(self, event, args):
        if not self.armed or threading.get_ident() == self.quiet or not (event == "open" or event.startswith(("os.", "shutil."))):
            return
        if self.interesting(event, args):
            with self.lock:
                self.n += 1
                if self.n != self.k:
                    return
                self.hit = True
            raise {"nospace": OSError(errno.ENOSPC, "no space left on device (injected)"),
                   "denied": PermissionError(errno.EACCES, "injected"),
                   "gone": FileNotFoundError(errno.ENOENT, "injected"),
                   "io": OSError(errno.EIO, "injected"),
                   "stop": KeyboardInterrupt(),
                   "bug": RuntimeError("injected")}[self.kind]

    def disarm(self):
        self.armed, self.quiet = False, 0
        return self.n


def tree(root: Path):
    res, empties = [], []
    for d, dirs, files in os.walk(root):
        for f in sorted(dirs + files):
            p = Path(d, f)
            s = p.lstat()
            what = os.readlink(p) if p.is_symlink() else "" if p.is_dir() else hashlib.md5(p.read_bytes()).hexdigest()
            res.append(f"{p.relative_to(root)} {stat.filemode(s.st_mode)} {what}")
            if p.is_dir() and not p.is_symlink() and not any(p.iterdir()) and f != "__pycache__":
                empties.append(str(p.relative_to(root)))
    return res, empties


def idle():
    """waits until no task runs in the pools of pkm"""
    pool = pkm.threads
    n = pool._max_workers
    gate = threading.Barrier(n + 1)
    fs = [pool.submit(gate.wait, 20) for _ in range(n)]
    gate.wait(20)
    for f in fs:
        f.result()


def run(recs):
    base = Path.cwd() / "sites"
    base.mkdir()
    with silent():
        env = EnvironmentBuilder.create(base / "env")
    fault = Fault()
    r = rng("rollback")
    for num, rec in enumerate(recs):
        W = rec["W"]
        pkm.config.concurrency_mode = rec["mode"]
        here = base / str(num)
        here.mkdir()
        sroot = here / "site"
        sroot.mkdir()
        site = Site(W, sroot, env)
        last = rec["ops"][-1]
        skip = False
        for j, op in enumerate(rec["ops"][:-1]):
            if op["k"] in ("foreign", "link", "run"):
                site.disturb(op)
                continue
            try:
                with silent():
                    site.perform(op, j)
            except UnsolvableProblemException:
                pass
        repo = site.repo(last["off"], "last")
        site.repo = lambda *_: repo
        roots = [sroot / x for x in ("lib", "bin", "share")]
        back = here / "back"
        for x in roots:
            shutil.copytree(x, back / x.name, symlinks=True)
        touched = set(site.touched)
        st = site.look()
        o1 = site.snapshot()[0]

        def reset():
            for x in roots + [sroot / y for y in ("include", "platinclude", "stdlib", "platstdlib")]:
                shutil.rmtree(x, ignore_errors=True)
            for x in roots:
                shutil.copytree(back / x.name, x, symlinks=True)
            site.target.reload()

        def attempt(k):
            fault.arm(sroot, k, rec["fault"])
            out = {"W": W, "st": st, "op": last, "out": "ok", "error": "", "ret": [], "ran": [], "orphans": [-1],
                   "conc": rec["mode"], "damaged": False, "k": k, "fault": rec["fault"]}
            try:
                with silent(), time_limit(60):
                    site.perform(last, 0)
            except UnsolvableProblemException:
                out["out"] = "unsolvable"
            except BaseException as e:
                out["out"], out["error"], out["detail"] = "error", err_name(e), repr(e)[:200]
            fault.quiet = threading.get_ident()  # (other threads may still be working)
            out["t2"], emp = tree(sroot)
            n = fault.disarm()
            out["hit"] = fault.hit
            if rec["mode"] != "none":
                idle()
            out["t3"], _ = tree(sroot) if out["out"] == "error" else (out["t2"], 0)
            site.target.reload()
            out["st2"] = site.look()
            site.touched = {p for p in touched if out["st2"]["v"][p - 1] == st["v"][p - 1]}
            out["o1"], (out["o2"], out["pycs"], out["empty"]) = o1, site.snapshot()
            out["infos"] = site.infos(out["st2"])
            return out, n, emp

        t1, e1 = tree(sroot)
        out, n, emp = attempt(-1)
        reset()
        if out["out"] == "ok":
            ks = [k for k in range(1, n + 1) if r.random() < rec["share"]]
            if not ks and n:
                ks = [r.randint(1, n)]
            for k in ks:
                out, _, emp = attempt(k)
                same = out["out"] == "error" and out["st2"] == st
                out["t1"] = t1 if same else []
                out["empties"] = [x for x in emp if x not in e1 and x not in ("bin", "share", "lib/pure", "lib/plat")
                                  and not (x.startswith(("share/", "bin/")) and any(y.startswith(x + " d") for y in t1))]
                if rec["mode"] != "none":  # a directory that several packages share may stay, empty, when they are installed at once
                    out["empties"] = [x for x in out["empties"] if "/ns" not in x]
                if out["out"] == "ok":  # bytecode that could not be written is left out
                    out["empty"] = [x for x in out["empty"] if not x.endswith("__pycache__")]
                if not same:
                    out["t2"] = out["t3"] = []
                elif out["t3"] == out["t2"]:
                    out["o1"], out["o2"], out["infos"], out["pycs"] = [], [], [], []
                yield out
                reset()
        shutil.rmtree(here, ignore_errors=True)


if __name__ == "__main__":
    main(run)
