"""threads that read, clear and set cached properties, under a deterministic scheduler

input records: {prog: per thread [[op, object]], shape, seed};  op: read, read! (if it computes, it fails), clear, clear-all, set"""
import dsched
import random
from dataclasses import dataclass

from common import main
from pkm.utils import properties as module
from pkm.utils.properties import cached_property, clear_cached_properties

NOW = None


class Boom(Exception):
    ...


def compute(self):
    task = dsched.current()
    h, me = NOW, NOW["at"][task.index]
    e = {"o": self.number, "inv": h["now"](), "end": 0, "by": me["index"], "v": f"c{len(h['runs'])}", "raised": me["raises"]}
    h["runs"].append(e)
    if given := getattr(self, "given", None):
        e["v"] = given
    for _ in range(me["steps"]):
        dsched.until(lambda: True)
    e["end"] = h["now"]()
    if me["raises"]:
        raise Boom(e["v"])
    return e["v"]


class Plain:
    def __init__(self, number):
        self.number = number

    @cached_property
    def value(self):
        return compute(self)

    @cached_property
    def other(self):
        return "other"


class Derived(Plain):
    """inherits the property"""
    @cached_property
    def further(self):
        return "further"


class Overriding(Plain):
    """overrides the property"""
    @cached_property
    def value(self):
        return compute(self)


@dataclass(frozen=True)
class Frozen:
    number: int

    @cached_property
    def value(self):
        return compute(self)


class Stored:
    """a property with a setter: what was set is found by the next computation"""
    def __init__(self, number):
        self.number = number
        self.given = None

    @cached_property
    def value(self):
        return compute(self)

    @value.setter
    def value(self, v):
        self.given = v


def run_one(rec):
    global NOW
    clock = [0]

    def now():
        clock[0] += 1
        return clock[0]

    ops, runs, at = [], [], {}
    NOW = {"now": now, "runs": runs, "at": at}
    shape = {"plain": Plain, "derived": Derived, "overriding": Overriding, "frozen": Frozen, "stored": Stored}[rec["shape"]]
    objects = {n: shape(n) for n in (1, 2)}
    r = random.Random(rec["seed"])

    def thread(t):
        for i, (op, o) in enumerate(rec["prog"][t]):
            v = f"s{t}.{i}"
            e = {"o": o, "op": "read" if op == "read!" else op, "v": v, "inv": now(), "ret": 0, "out": {"k": "blocked", "v": ""}}
            ops.append(e)
            at[t] = {"index": len(ops), "raises": op == "read!", "steps": r.choice([0, 0, 2, 5])}
            obj = objects[o]
            try:
                if e["op"] == "read":
                    out = {"k": "value", "v": obj.value}
                else:
                    if op == "clear":
                        del obj.value
                    elif op == "clear-all":
                        clear_cached_properties(obj)
                    else:
                        obj.value = v
                    out = {"k": "ok", "v": ""}
            except Boom as x:
                out = {"k": "error", "v": x.args[0]}
            except Exception as x:
                out = {"k": "crash", "v": repr(x)}
            e["out"], e["ret"] = out, now()

    s = dsched.Sched(dsched.chooser(r), files=[module.__file__], max_steps=20000)
    s.run([lambda t=t: thread(t) for t in range(len(rec["prog"]))])
    return {"ops": ops, "runs": runs, "end": s.outcome, "given": rec}


if __name__ == "__main__":
    main(lambda recs: (run_one(r) for r in recs))
