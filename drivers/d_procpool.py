"""tasks in a process pool, under a deterministic scheduler that also plays the worker processes, or with real ones

input records: {real, max, idle, tasks: [kind], script: per user thread a list of [op, task], seed}
  operations: ["put", i], ["wait", i], ["cancel", i], ["close", 0]"""
import dsched
import contextlib
import os
import pickle
import random
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import CancelledError
from io import StringIO
from pathlib import Path

from common import main

NOW = None  # the execution that is going on


class Die(BaseException):
    ...


class Pipe:
    def __init__(self):
        self.data, self.closed = bytearray(), False

    def write(self, b):
        dsched.until(lambda: True)
        if self.closed:
            raise BrokenPipeError(32, "Broken pipe")
        self.data += b
        return len(b)

    def flush(self):
        dsched.until(lambda: True)
        if self.closed:
            raise BrokenPipeError(32, "Broken pipe")

    def _take(self, n):
        r = bytes(self.data[:n])
        del self.data[:n]
        return r

    def read(self, n=-1):
        if n < 0:
            dsched.until(lambda: self.closed)
            return self._take(len(self.data))
        dsched.until(lambda: len(self.data) >= n or self.closed)
        return self._take(n)

    def readline(self):
        dsched.until(lambda: b"\n" in self.data or self.closed)
        i = self.data.find(b"\n")
        return self._take(i + 1 if i >= 0 else len(self.data))

    def close(self):
        self.closed = True


class Process:
    """a worker process: a scheduled thread"""
    def __init__(self, *_, **__):
        from pkm.utils import multiproc
        self.stdin, self.stdout, self.stderr = Pipe(), Pipe(), Pipe()
        self.rc = None
        self.pid = 1
        proc = self

        class Worker(multiproc._Worker):
            def _attach_to_process(self):
                self._stdin, self._stdout, self._stderr = proc.stdin, proc.stdout, proc.stderr

        def work():
            try:
                Worker().run()
            except (Die, SystemExit, EOFError, BrokenPipeError):
                pass
            finally:
                self._ended()
        self.task = dsched.current().sched.spawn(work)
        NOW["procs"].append(self)

    def _ended(self):
        for p in (self.stdin, self.stdout, self.stderr):
            p.close()
        if self.rc is None:
            try:
                dsched.until(lambda: True)  # its pipes are closed before anybody sees that it ended
                dsched.until(lambda: True)
            except dsched.Abort:
                pass
            self.rc = -9 if self.task.killed else 0

    def poll(self):
        t = dsched.current()
        if t is not None:
            t.switch()
        return self.rc

    def wait(self, timeout=None):
        dsched.until(lambda: self.rc is not None)
        return self.rc

    def kill(self):
        t = dsched.current()
        if t is None or self.rc is not None:
            return
        self.task.kill()
        if not self.task.done:
            dsched.until(lambda: self.task.done)
        if self.rc is None:
            self._ended()
            self.rc = -9

    terminate = kill


# ------------------------------------------------------------------ the tasks

def mark(i, what):
    """in a real worker process the marks are lines of a file"""
    if NOW is not None:
        NOW["clock"] += 1
        t = NOW["tasks"][i]
        if what == "start":
            t["execs"] += 1
        t[what] = NOW["clock"]
    else:
        with open(os.environ["POOL_JOURNAL"], "a") as f:
            f.write(f"{what} {i} {time.monotonic_ns()} {os.getpid()}\n")


class Unreturnable:
    def __reduce__(self):
        raise TypeError("can not be pickled")


def body(i, kind, v, extra=None):
    mark(i, "start")
    for _ in range(extra or 0):
        if NOW is not None:
            dsched.until(lambda: True)
        else:
            time.sleep(.01)
    if kind == "meet":
        if NOW is not None:
            NOW["meeting"] += 1
            dsched.until(lambda: NOW["meeting"] >= 2)
        else:
            while Path(os.environ["POOL_JOURNAL"]).read_text().count("meets") < 2:
                with open(os.environ["POOL_JOURNAL"], "a") as f:
                    f.write(f"meets {i} 0 {os.getpid()}\n")
                time.sleep(.02)
                if Path(os.environ["POOL_JOURNAL"]).read_text().count(f"meets {i} ") > 300:
                    break
    elif kind == "raise":
        mark(i, "end")
        raise ValueError(v)
    elif kind == "die":
        mark(i, "end")
        if NOW is not None:
            raise Die()
        os._exit(3)
    mark(i, "end")
    return Unreturnable() if kind == "unreturnable" else v


def arguments(i, kind, v, extra):
    return (i, kind, v, Unreturnable() if kind == "unsendable" else extra)


def outcome(p, v):
    try:
        return {"k": "value", "v": p.result(wait=False)}
    except CancelledError:
        return {"k": "cancelled", "v": ""}
    except ValueError as e:
        if "not completed" in str(e):
            return {"k": "pending", "v": ""}
        return {"k": "error", "v": ""}
    except BaseException as e:
        return {"k": "error", "v": v if v in str(e) else ""}


def blank(kind, i):
    return {"kind": kind, "v": f"<{i}>", "inv": 0, "put": 0, "start": 0, "end": 0, "execs": 0, "answered": 0, "reg": 0,
            "out": {"k": "none", "v": ""}, "cancels": []}


def played(rec):
    global NOW
    from pkm.utils import multiproc, promises
    s = dsched.Sched(dsched.chooser(random.Random(rec["seed"])), files=[multiproc.__file__, promises.__file__], max_steps=15000, max_tasks=50)
    NOW = {"clock": 0, "tasks": [blank(k, i) for i, k in enumerate(rec["tasks"])], "procs": [], "meeting": 0}
    close = {"inv": 0, "ret": 0}
    tasks, promise_of = NOW["tasks"], {}

    def now():
        NOW["clock"] += 1
        return NOW["clock"]

    pool = multiproc.ProcessPoolExecutor(max_workers=rec["max"], max_inactivity_seconds=rec["idle"])

    def answered(i):
        def cb(_):
            tasks[i]["answered"] = now()
        return cb

    def user(script):
        for op, i in script:
            if op == "put":
                t = tasks[i]
                t["inv"] = now()
                try:
                    p = pool.execute(body, *arguments(i, t["kind"], t["v"], rec["steps"][i]))
                except AssertionError:
                    t["out"] = {"k": "refused", "v": ""}
                    continue
                t["put"] = now()
                promise_of[i] = p
                p.when_completed(answered(i))
                t["reg"] = now()
            elif op == "wait" and i in promise_of:
                try:
                    promise_of[i].result()
                except Exception:
                    pass
            elif op == "cancel" and i in promise_of:
                c = {"inv": now()}
                c["out"] = "true" if promise_of[i].request_cancel() else "false"
                c["ret"] = now()
                tasks[i]["cancels"].append(c)
            elif op == "close":
                close["inv"] = now()
                pool.close()
                close["ret"] = now()
                close["left"] = sum(p.rc is None for p in NOW["procs"])

    rs = s.run([lambda sc=sc: user(sc) for sc in rec["script"]])
    end = s.outcome
    users = rs[:len(rec["script"])]
    if end == "deadlock" and all(r[0] == "ok" for r in users):
        end = "done"  # only idle workers are left
    for r in users:
        if r[0] == "raised":
            end = "raised " + repr(r[1])
    for i, p in promise_of.items():
        if tasks[i]["out"]["k"] == "none":
            tasks[i]["out"] = outcome(p, tasks[i]["v"])
    res = {"real": False, "max": rec["max"], "close": {"inv": close["inv"], "ret": close["ret"]}, "left": close.get("left", 0), "end": end,
           "tasks": [t for t in tasks if t["inv"]], "prints": [], "given": rec}
    NOW = None
    return res


# ------------------------------------------------------------------ real processes

def chatty(i, kind, v, extra):
    """also prints, returns a lot, runs processes"""
    mode, n = extra
    if mode == "print":
        for k in range(3):
            print(f"[{i}.{k}]" + "x" * n + f"[/{i}.{k}]")
        print(f"[{i}.e]", file=sys.stderr)
    elif mode == "threads":
        def say(t):
            for k in range(4):
                print(f"[{i}.{t}.{k}]" + "x" * n + f"[/{i}.{t}.{k}]", file=sys.stdout if t % 2 else sys.stderr)
        ths = [threading.Thread(target=say, args=(t,)) for t in range(4)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    elif mode == "raw":
        os.write(1, b"raw\n" * 10)
        os.write(2, b"raw\n" * 10)
    elif mode == "child":
        subprocess.run([sys.executable, "-c", "import sys; print('out'); print('err', file=sys.stderr); print(sys.stdin.read())"])
    r = body(i, kind, v)
    return r + "y" * n if mode == "big" and kind == "value" else r


def real(rec):
    from pkm.utils import multiproc
    d = Path(tempfile.mkdtemp())
    os.environ["POOL_JOURNAL"] = str(d / "journal")
    (d / "journal").touch()
    out, err = StringIO(), StringIO()
    olds = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    tasks = [blank(k, i) for i, k in enumerate(rec["tasks"])]
    promise_of, close = {}, {"inv": 0, "ret": 0}
    ns = time.monotonic_ns
    end = "done"
    pool = multiproc.ProcessPoolExecutor(max_workers=rec["max"], max_inactivity_seconds=rec["idle"])

    def answered(i):
        def cb(_):
            tasks[i]["answered"] = ns()
        return cb

    def user(script):
        for op, i in script:
            t = tasks[i] if op != "close" else None
            if op == "put":
                mode = rec["modes"][i]
                t["inv"] = ns()
                try:
                    p = pool.execute(d_procpool.chatty, i, t["kind"], t["v"], d_procpool.Unreturnable() if t["kind"] == "unsendable" else mode)
                except AssertionError:
                    t["out"] = {"k": "refused", "v": ""}
                    continue
                t["put"] = ns()
                promise_of[i] = p
                p.when_completed(answered(i))
                t["reg"] = ns()
            elif op == "wait" and i in promise_of:
                try:
                    promise_of[i].result()
                except Exception:
                    pass
            elif op == "cancel" and i in promise_of:
                c = {"inv": ns()}
                c["out"] = "true" if promise_of[i].request_cancel() else "false"
                c["ret"] = ns()
                t["cancels"].append(c)
            elif op == "close":
                close["inv"] = ns()
                pool.close()
                close["ret"] = ns()

    import d_procpool
    ths = [threading.Thread(target=user, args=(sc,), daemon=True) for sc in rec["script"]]
    for t in ths:
        t.start()
    limit = time.monotonic() + 15
    for t in ths:
        t.join(max(0, limit - time.monotonic()))
    while time.monotonic() < limit and any(not p.is_completed() for p in promise_of.values()):
        time.sleep(.01)
    time.sleep(.02)
    if any(t.is_alive() for t in ths) and not (close["inv"] and not close["ret"]):
        end = "blocked"
    pids = set()
    for ln in (d / "journal").read_text().splitlines():
        what, i, at, pid = ln.split()
        pids.add(int(pid))
        if what == "start":
            tasks[int(i)]["execs"] += 1
        if what in ("start", "end"):
            tasks[int(i)][what] = int(at)
    left = 0
    for pid in pids:
        try:
            stat = Path(f"/proc/{pid}/stat").read_text().rpartition(")")[2].split()[0]
            left += stat != "Z"
        except OSError:
            pass
    for i, p in promise_of.items():
        if tasks[i]["out"]["k"] == "none":
            o = outcome(p, tasks[i]["v"])
            if o["k"] == "value":
                m = rec["modes"][i]
                o["v"] = tasks[i]["v"] if o["v"] == tasks[i]["v"] + ("y" * m[1] if m[0] == "big" and tasks[i]["kind"] == "value" else "") else "?"
            tasks[i]["out"] = o
    prints = []
    if close["ret"]:
        for i, t in enumerate(tasks):
            if t["out"]["k"] in ("value",) and rec["modes"][i][0] == "print":
                n = rec["modes"][i][1]
                for k in range(3):
                    prints.append({"n": 1, "seen": out.getvalue().count(f"[{i}.{k}]" + "x" * n + f"[/{i}.{k}]\n")})
                prints.append({"n": 1, "seen": err.getvalue().count(f"[{i}.e]\n")})
            if t["out"]["k"] in ("value",) and rec["modes"][i][0] == "threads":
                n = rec["modes"][i][1]
                for h in range(4):
                    for k in range(4):
                        prints.append({"n": 1, "seen": (out if h % 2 else err).getvalue().count(f"[{i}.{h}.{k}]" + "x" * n + f"[/{i}.{h}.{k}]")})
    sys.stdout, sys.stderr = olds
    # positions instead of nanoseconds
    times = sorted({t[k] for t in tasks for k in ("inv", "put", "reg", "start", "end", "answered")} | {c[k] for t in tasks for c in t["cancels"] for k in ("inv", "ret")}
                   | {close["inv"], close["ret"]} - {0})
    pos = {x: i + 1 for i, x in enumerate([x for x in times if x])}
    pos[0] = 0
    for t in tasks:
        for k in ("inv", "put", "reg", "start", "end", "answered"):
            t[k] = pos[t[k]]
        for c in t["cancels"]:
            c.update(inv=pos[c["inv"]], ret=pos[c["ret"]])
    return {"real": True, "max": rec["max"], "close": {k: pos[v] for k, v in close.items()}, "left": left if close["ret"] else 0, "end": end,
            "tasks": [t for t in tasks if t["inv"]], "prints": prints, "given": rec}


def end_children():
    for f in Path("/proc/self/task").glob("*/children"):
        with contextlib.suppress(OSError):
            for pid in f.read_text().split():
                with contextlib.suppress(OSError):
                    os.kill(int(pid), 9)


def run(recs):
    hung = 0
    for r in recs:
        res = real(r) if r["real"] else played(r)
        yield res
        if r["real"] and (res["end"] != "done" or any(t["out"]["k"] == "pending" for t in res["tasks"]) or (res["close"]["inv"] and not res["close"]["ret"])):
            hung += 1
            if hung == 2:  # enough was seen
                break
    end_children()


if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        is_real = '"real": true' in f.readline()
    if not is_real:
        subprocess.Popen = Process
    main(run)
