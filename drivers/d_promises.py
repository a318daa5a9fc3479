"""runs small programs of several threads on real promises, under schedules chosen by a deterministic scheduler

input records: {kind: simple|future, prog: per thread a list of operations, seed}
   operation: [op, promise, argument]; promise 1 is the root, "when" makes promise `argument` (a derived one)
 or {kind: await, tasks: [{k: simple|future, out, steps}], workers, seed}"""
import dsched
import random
import warnings
from concurrent.futures import Future, ThreadPoolExecutor, InvalidStateError, CancelledError

from common import main
from pkm.utils import promises as module
from pkm.utils.promises import Promise, Deferred, await_all_promises_or_cancel

warnings.simplefilter("ignore")


class Boom(Exception):
    ...


class Falsy(Boom):
    def __len__(self):
        return 0


class Halt(BaseException):
    ...


def outcome(fn, ok=None):
    """what a call gave, as the specification names it"""
    try:
        r = fn()
    except (Boom, Halt) as e:
        return {"k": "error", "v": e.args[0]}
    except CancelledError:
        return {"k": "error", "v": "cancelled"}
    except (ValueError, InvalidStateError):
        return {"k": "rejected", "v": ""}
    except (KeyboardInterrupt, SystemExit) as e:
        return {"k": "error", "v": str(e.args[0])}
    except Exception as e:
        return {"k": "crash", "v": type(e).__name__}
    if ok:
        return ok(r)
    return {"k": "value", "v": str(r)}


OK = lambda _: {"k": "ok", "v": ""}
BOOL = lambda r: {"k": "true" if r else "false", "v": ""}


def sched_of(rec):
    return dsched.Sched(dsched.chooser(random.Random(rec["seed"])), files=[module.__file__], max_steps=20000)


def history(rec):
    clock = [0]

    def now():
        clock[0] += 1
        return clock[0]

    future = Future() if rec["kind"] == "future" else None
    deferred = None if future else Deferred()
    root = Promise.wrap_future(future, lambda f: f.result()) if future else deferred.promise()
    real = {1: root}
    whens = [(o, t, i) for t, p in enumerate(rec["prog"]) for i, o in enumerate(p) if o[0].startswith("when")]
    promises = [{"kind": rec["kind"], "mode": "", "v": ""}] + [None] * len(whens)
    for o, t, i in whens:
        promises[o[2] - 1] = {"kind": "derived", "mode": "raise" if o[0] == "when-raise" else "ret", "v": f"cb{o[2]}"}
    ops, cbs, at = [], [], {}

    def callback(d, raising, source):
        def cb(p):
            c = {"d": d, "by": at[dsched.current().index], "inv": now(), "ret": 0, "saw": outcome(lambda: p.result(wait=False))}
            cbs.append(c)
            c["ret"] = now()
            if raising:
                raise (Falsy if rec["seed"] % 7 == 0 else (Boom, Boom, Halt, SystemExit)[(rec["seed"] + d) % 4])(f"cb{d}")
            return f"cb{d}"
        return cb

    def perform(t, i, o):
        op, p = o[0], o[1]
        v = f"t{t}.{i}"
        e = {"p": p, "op": "when" if op.startswith("when") else op, "v": v, "d": 0, "inv": 0, "ret": 0, "out": {"k": "blocked", "v": ""}}
        pr = real.get(p)
        if pr is None:
            return
        ops.append(e)
        at[t] = len(ops)
        e["inv"] = now()
        if op == "complete":
            out = outcome(lambda: future.set_result(v) if future else deferred.complete(v), OK)
        elif op == "fail":
            err = (Falsy if rec["seed"] % 5 == 0 and not future else Boom)(v)  # (a Future can not fail with a falsy exception)
            out = outcome(lambda: future.set_exception(err) if future else deferred.fail(err), OK)
        elif op == "result":
            out = outcome(pr.result)
        elif op == "poll":
            out = outcome(lambda: pr.result(wait=False))
        elif op in ("completed", "failed", "succeeded"):
            out = outcome(getattr(pr, "is_" + op), BOOL)
        elif op == "cancel":
            out = outcome(pr.request_cancel, BOOL)
        else:
            e["d"] = o[2]

            def reg():
                real[o[2]] = pr.when_completed(callback(o[2], op == "when-raise", pr))
            out = outcome(reg, OK)
        e["out"], e["ret"] = out, now()

    def thread(t):
        for i, o in enumerate(rec["prog"][t]):
            perform(t, i, o)

    s = sched_of(rec)
    rs = s.run([lambda t=t: thread(t) for t in range(len(rec["prog"]))])
    for r in rs:
        if r[0] == "raised":
            ops.append({"p": 1, "op": "poll", "v": "", "d": 0, "inv": now(), "ret": now(), "out": {"k": "crash", "v": repr(r[1])}})
    # a call that an aborted execution left open did not return
    if s.outcome != "done":
        pass
    return {"kind": rec["kind"], "promises": promises, "ops": ops, "cbs": cbs, "end": s.outcome, "prog": rec["prog"], "seed": rec["seed"]}


def awaiting(rec):
    clock = [0]

    def now():
        clock[0] += 1
        return clock[0]

    s = sched_of(rec)
    logs = [{"start": 0, "end": 0, "out": {"k": "none", "v": ""}} for _ in rec["tasks"]]
    gate = dsched.Lock()

    def body(i):
        t, log = rec["tasks"][i], logs[i]
        log["start"] = now()
        for _ in range(t["steps"]):
            gate.acquire()
            gate.release()
        log["end"] = now()
        if t["out"] == "value":
            log["out"] = {"k": "value", "v": f"r{i}"}
            return f"r{i}"
        log["out"] = {"k": "error", "v": f"e{i}"}
        raise {"error": Boom, "halt": Halt, "interrupt": KeyboardInterrupt, "exit": SystemExit}[t["out"]](f"e{i}")

    class Pool(ThreadPoolExecutor):
        """the workers are threads of the scheduler"""
        def __init__(self, n):
            self.pending = []
            self.free = n

        def submit(self, fn, *args, **kwargs):
            f = Future()
            self.pending.append((f, fn, args, kwargs))
            if self.free:
                self.free -= 1
                s.spawn(self.work)
            return f

        def work(self):
            while self.pending:
                f, fn, args, kwargs = self.pending.pop(0)
                if f.set_running_or_notify_cancel():
                    try:
                        r = fn(*args, **kwargs)
                    except BaseException as e:
                        f.set_exception(e)
                    else:
                        f.set_result(r)
            self.free += 1

    res = {}

    def user():
        pool = Pool(rec["workers"])
        promises = []
        for i, t in enumerate(rec["tasks"]):
            if t["k"] == "future":
                promises.append(Promise.execute(pool, body, i))
            elif t["k"] == "now":
                promises.append(Promise.execute(None, body, i))
            else:
                d = Deferred()

                def run(d=d, i=i):
                    try:
                        r = body(i)
                    except BaseException as e:
                        d.fail(e)
                    else:
                        d.complete(r)
                s.spawn(run)
                promises.append(d.promise())
        res["out"] = outcome(lambda: await_all_promises_or_cancel(promises), lambda _: {"k": "value", "v": ""})
        res["ret"] = now()

    s.run([user])
    return {"kind": "await", "tasks": logs, "out": res.get("out", {"k": "blocked", "v": ""}), "ret": res.get("ret", 0), "end": s.outcome,
            "given": rec["tasks"], "seed": rec["seed"]}


def run(recs):
    for r in recs:
        yield awaiting(r) if r["kind"] == "await" else history(r)


if __name__ == "__main__":
    main(run)
