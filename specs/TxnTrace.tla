------------------------------- MODULE TxnTrace -------------------------------
(* record: fs0, ops, raises (the user's code fails after the operations),    *)
(* out: "ok" or "error", surfaced: the error is the one of the user's code,  *)
(* fs: what is there in the end, made: the paths reported as created         *)
EXTENDS Txn, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Expected(t) == Run(t.fs0, t.ops)
Same(a, b) == \A p \in Paths : a[p] = b[p]
TxnVerdict(t) ==
    LET e == Expected(t)  fails == e.raised \/ t.raises IN
    IF fails # (t.out = "error") THEN (IF fails THEN "failure-not-reported" ELSE "operation-fails")
    ELSE IF t.temp # 0 THEN "temporary-files-left-behind"
    ELSE IF fails THEN (IF Same(t.fs, t.fs0) THEN "ok" ELSE "not-rolled-back")
    ELSE IF ~Same(t.fs, e.fs) THEN "committed-state-wrong"
    ELSE IF \E p \in Paths : IsFile(t.fs, p) /\ t.fs[p] # t.fs0[p] /\ ~\E i \in 1..Len(t.made) : t.made[i] = p THEN "created-file-not-reported"
    ELSE "ok"
VARIABLES l, judged
Init == l \in 1..Len(Trace) /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
        /\ LET v == TxnVerdict(Trace[l]) IN v = "ok" \/ PrintT(<<"BAD", l, v>>)
Judged == TRUE
=============================================================================
