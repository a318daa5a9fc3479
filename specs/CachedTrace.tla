----------------------------- MODULE CachedTrace -----------------------------
EXTENDS Cached, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, judged
Init == l \in 1..Len(Trace) /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
        /\ LET v == CachedVerdict(Trace[l]) IN v = "ok" \/ PrintT(<<"BAD", l, v>>)
Judged == TRUE
=============================================================================
