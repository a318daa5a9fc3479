------------------------------ MODULE SiteTrace ------------------------------
(* observed operations: t.W, t.st (before), t.op, t.out "ok" / "unsolvable" / *)
(* "error", t.st2 (after), t.ret (packages reported removed),                *)
(* t.orphans (answer of the orphans query before the operation)              *)
EXTENDS Site, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, judged

Installing(t) ==
    IF t.op.k # "install" THEN "ok"
    ELSE IF t.out = "error" THEN "installation-failed-with-" \o t.error
    ELSE IF t.out = "unsolvable" THEN Refused(t.W, t.st, t.op, t.st2)
    ELSE Install(t.W, t.st, t.op, t.st2)
Removing(t) ==
    IF t.orphans # <<-1>> /\ OrphansAnswer(t.W, t.st, t.orphans) # "ok" THEN OrphansAnswer(t.W, t.st, t.orphans)
    ELSE IF t.op.k = "install" THEN "ok"
    ELSE IF t.out # "ok" THEN "removal-failed-with-" \o t.error
    ELSE IF t.op.k = "remove" THEN Remove(t.W, t.st, t.op, t.st2, t.ret)
    ELSE Uninstall(t.W, t.st, t.op, t.st2, t.ret)
Verdict(t) == IF t.mode = "C06" THEN Installing(t) ELSE Removing(t)

Init == l \in 1..Len(Trace) /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
        /\ LET v == Verdict(Trace[l]) IN v = "ok" \/ PrintT(<<"BAD", l, v>>)
Judged == TRUE
=============================================================================
