------------------------------- MODULE ProcPool -------------------------------
(* A pool of worker processes, judged by what happened to its tasks.         *)
(* task: [kind, v, inv, put, reg, start, end, execs, answered, out, cancels], positions*)
(* in time, 0: never; cancels: [inv, ret, out];  pool: [max, close: [inv,    *)
(* ret], left: worker processes that outlived the pool].                     *)
(* Kinds: value, raise, die (ends its process), unsendable (its arguments    *)
(* can not be pickled), unreturnable (its result can not be pickled), meet   *)
(* (runs until another task of this kind runs).                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Range(s) == { s[i] : i \in 1..Len(s) }
Accepted(t) == t.put > 0
CancelledBy(t) == { c \in Range(t.cancels) : c.out = "true" }
Closing(h) == h.close.inv > 0

\* how a task that ran must have ended
RightAnswer(t) ==
    CASE t.kind \in {"value", "meet"} -> t.out.k = "value" /\ t.out.v = t.v
      [] t.kind = "raise" -> t.out.k = "error" /\ t.out.v = t.v
      [] t.kind \in {"die", "unsendable", "unreturnable"} -> t.out.k = "error"
      [] OTHER -> FALSE
Runs(t) == t.kind # "unsendable"

TaskVerdict(h, t) ==
    IF ~Accepted(t) THEN (IF t.execs > 0 THEN "refused-task-is-executed"
                          ELSE IF ~Closing(h) THEN "task-refused-by-an-open-pool" ELSE "ok")
    ELSE IF Closing(h) /\ h.close.ret > 0 /\ h.close.ret < t.inv THEN "closed-pool-accepts-tasks"
    ELSE IF t.execs > 1 THEN "executed-twice"
    ELSE IF t.out.k = "pending" THEN "task-without-answer"
    ELSE IF CancelledBy(t) # {} /\ (t.execs > 0 \/ t.out.k # "cancelled") THEN "cancelled-task-is-executed-or-not-cancelled"
    ELSE IF t.out.k = "cancelled" THEN
        (IF t.execs > 0 THEN "started-task-is-cancelled" ELSE IF CancelledBy(t) = {} /\ ~Closing(h) THEN "cancelled-by-nobody" ELSE "ok")
    ELSE IF Runs(t) /\ t.execs = 0 THEN "answered-without-execution"
    ELSE IF ~RightAnswer(t) THEN "wrong-answer"
    ELSE IF t.out.k = "value" /\ t.answered < t.end THEN "answered-too-early"
    ELSE IF h.close.ret > 0 /\ (t.end > h.close.ret \/ (t.answered > h.close.ret /\ t.reg < h.close.ret)) THEN "task-outlives-the-pool"
    ELSE "ok"

RECURSIVE FirstBad(_, _)
FirstBad(h, i) == IF i > Len(h.tasks) THEN "ok" ELSE LET v == TaskVerdict(h, h.tasks[i]) IN IF v # "ok" THEN v ELSE FirstBad(h, i + 1)

\* never more than max tasks at once
Running(h, at) == { i \in 1..Len(h.tasks) : LET t == h.tasks[i] IN t.start > 0 /\ t.start <= at /\ (t.end = 0 \/ t.end > at) }
TooMany(h) == \E i \in 1..Len(h.tasks) : h.tasks[i].start > 0 /\ Cardinality({ j \in Running(h, h.tasks[i].start) : h.tasks[j].end > 0 \/ h.tasks[j].kind # "die" }) > h.max

PoolVerdict(h) ==
    LET v == FirstBad(h, 1) IN
    IF Closing(h) /\ h.close.ret = 0 THEN "close-never-returns"
    ELSE IF v # "ok" THEN v
    ELSE IF TooMany(h) THEN "more-tasks-at-once-than-allowed"
    ELSE IF h.close.ret > 0 /\ h.left > 0 THEN "workers-outlive-the-pool"
    ELSE IF h.end # "done" THEN "never-comes-to-rest"
    ELSE "ok"
=============================================================================
