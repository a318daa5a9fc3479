--------------------------- MODULE ResolutionTrace ---------------------------
EXTENDS Resolution, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, judged

(* outcome: t.out in "solved" (t.sel: index of the chosen version, 0 = none,  *)
(* -1 = a version that is not available), "unsolvable", or "error"            *)
Sound(t) ==
    IF t.out # "solved" THEN "ok"
    ELSE IF \E p \in 1..t.P.n : t.sel[p] < 0 THEN "unavailable-version-selected"
    ELSE IF t.twice THEN "package-selected-twice"
    ELSE IF \E q \in Needs(t.P, t.sel) : t.sel[q.q] = 0 THEN "required-package-missing"
    ELSE IF \E q \in Needs(t.P, t.sel) : t.P.bad[q.q][t.sel[q.q]] THEN "malformed-version-selected"
    ELSE IF ~Consistent(t.P, t.sel) THEN "requirement-violated"
    ELSE IF ~Solution(t.P, t.sel) THEN "package-nobody-needs"
    ELSE "ok"
Complete(t) ==
    IF t.out = "error" THEN "resolution-failed-with-" \o t.error
    ELSE IF t.out = "unsolvable" /\ Solvable(t.P) THEN "solvable-problem-rejected"
    ELSE IF t.out = "solved" /\ Consistent(t.P, Preferred(t.P)) /\ t.sel # Preferred(t.P) THEN "preferred-versions-not-chosen"
    ELSE "ok"
Verdict(t) == IF t.mode = "C04" THEN Sound(t) ELSE Complete(t)

Init == l \in 1..Len(Trace) /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
        /\ LET v == Verdict(Trace[l]) IN v = "ok" \/ PrintT(<<"BAD", l, v>>)
Judged == TRUE
=============================================================================
