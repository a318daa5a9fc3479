---------------------------- MODULE RollbackTrace ----------------------------
(* One installation during which the k-th access to the disk failed.         *)
(* Additional observations: t1, t2 the complete tree of the site before and  *)
(* after (name, kind, mode and content of everything), t3 the tree when      *)
(* nothing runs any more, hit: a failure was injected,                       *)
(* empties: directories that are new and empty                               *)
EXTENDS Files, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Half(t) == \E d \in Ran(t.infos) : Record(t.W, t.st2, d) # "ok"
RollbackVerdict(t) ==
    LET W == t.W IN
    IF \E p \in Pkgs(W) : t.st2.v[p] < 0 THEN "half-installed-package"
    ELSE IF t.out = "error" /\ ~t.hit THEN "operation-failed-with-" \o t.error
    ELSE IF t.out = "ok" THEN
        (IF \E i \in Ran(t.op.d) : t.st2.v[W.pool[i].q] = 0 THEN "failure-not-reported" ELSE FilesVerdict(t))
    ELSE IF Ran(t.t2) # Ran(t.t3) THEN "still-running-after-the-failure"
    ELSE IF t.st2 = t.st THEN (IF Ran(t.t1) = Ran(t.t2) THEN "ok" ELSE "not-rolled-back")
    \* several packages: each of them completely or not at all
    ELSE IF Disk(W, t.st, t.o1, t.st2, t.o2) # "ok" THEN Disk(W, t.st, t.o1, t.st2, t.o2)
    ELSE IF { d.p : d \in Ran(t.infos) } # Installed(W, t.st2) THEN "metadata-directories-wrong"
    ELSE IF Half(t) THEN "half-installed-package"
    ELSE IF t.empties # <<>> THEN "empty-directory-left-behind"
    ELSE IF \E b \in Ran(t.pycs) : ~b.source THEN "bytecode-left-behind"
    ELSE "ok"
VARIABLES l, judged
Init == l \in 1..Len(Trace) /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
        /\ LET v == RollbackVerdict(Trace[l]) IN v = "ok" \/ PrintT(<<"BAD", l, v>>)
Judged == TRUE
=============================================================================
