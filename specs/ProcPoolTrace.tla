---------------------------- MODULE ProcPoolTrace ----------------------------
EXTENDS ProcPool, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* real processes also show what they printed: output of every task that has an answer, each text once and whole
OutputVerdict(t) ==
    IF \E i \in 1..Len(t.prints) : t.prints[i].n # t.prints[i].seen THEN "output-lost-or-repeated" ELSE "ok"
Verdict(t) == LET v == PoolVerdict(t) IN IF v # "ok" THEN v ELSE IF t.real THEN OutputVerdict(t) ELSE "ok"
VARIABLES l, judged
Init == l \in 1..Len(Trace) /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
        /\ LET v == Verdict(Trace[l]) IN v = "ok" \/ PrintT(<<"BAD", l, v>>)
Judged == TRUE
=============================================================================
