---------------------------- MODULE PromiseTrace ----------------------------
EXTENDS Promise, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
PromiseVerdict(t) == IF t.kind = "await" THEN AwaitVerdict(t) ELSE HistoryVerdict(t)
VARIABLES l, judged
Init == l \in 1..Len(Trace) /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
        /\ LET v == PromiseVerdict(Trace[l]) IN v = "ok" \/ PrintT(<<"BAD", l, v>>)
Judged == TRUE
=============================================================================
