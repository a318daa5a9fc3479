------------------------------ MODULE PromiseMC ------------------------------
(* A promise as an object whose operations take effect at one instant        *)
(* between call and return, used by threads that run every small program.    *)
(* Checked: every history of this object is accepted by the judgement of     *)
(* Promise.tla (so a rejected recorded history is not one of this object),   *)
(* and nobody waits for a completed promise.                                 *)
EXTENDS Promise, Json, IOUtils, SequencesExt
Shape == CASE IOEnv.SHAPE = "21" -> <<2, 1>> [] IOEnv.SHAPE = "22" -> <<2, 2>> [] IOEnv.SHAPE = "211" -> <<2, 1, 1>> [] OTHER -> <<1, 1, 1>>
OpKinds == {"complete", "fail", "result", "poll", "completed", "failed", "when-ret", "when-raise"}
Threads == 1..Len(Shape)
RECURSIVE Programs(_)
Programs(n) == IF n = 0 THEN { <<>> } ELSE { <<o>> \o p : o \in OpKinds, p \in Programs(n - 1) }
VARIABLES prog, pc, phase, now, outcome, listeners, h
vars == <<prog, pc, phase, now, outcome, listeners, h>>
None == [k |-> "none", v |-> ""]
Init == /\ prog \in { f \in [Threads -> UNION { Programs(n) : n \in {1, 2} }] : \A t \in Threads : Len(f[t]) = Shape[t] }
        /\ pc = [t \in Threads |-> 1] /\ phase = [t \in Threads |-> [at |-> "idle", i |-> 0, out |-> None]]
        /\ now = 1 /\ outcome = None /\ listeners = <<>>
        /\ h = [promises |-> << [kind |-> "simple", mode |-> "", v |-> ""] >>, ops |-> <<>>, cbs |-> <<>>]
Op(t) == prog[t][pc[t]]
IsWhen(o) == o \in {"when-ret", "when-raise"}
Tag(t) == ToString(t) \o "." \o ToString(pc[t])
Call(t) == /\ phase[t].at = "idle" /\ pc[t] <= Len(prog[t])
           /\ h' = [h EXCEPT !.ops = Append(@, [p |-> 1, op |-> IF IsWhen(Op(t)) THEN "when" ELSE Op(t), v |-> Tag(t),
                                                d |-> IF IsWhen(Op(t)) THEN Len(h.promises) + 1 ELSE 0, inv |-> now, ret |-> 0, out |-> None]),
                             !.promises = IF IsWhen(Op(t)) THEN Append(@, [kind |-> "derived", mode |-> IF Op(t) = "when-raise" THEN "raise" ELSE "ret", v |-> Tag(t)]) ELSE @]
           /\ phase' = [phase EXCEPT ![t] = [at |-> "called", i |-> Len(h.ops) + 1, out |-> None]]
           /\ now' = now + 1 /\ UNCHANGED <<prog, pc, outcome, listeners>>
Run(t, ls, out) == [i \in 1..Len(ls) |-> [d |-> ls[i], by |-> phase[t].i, inv |-> now, ret |-> now, saw |-> out]]
Effect(t) ==
    /\ phase[t].at = "called"
    /\ LET o == Op(t)  me == h.ops[phase[t].i]
           done(out) == phase' = [phase EXCEPT ![t] = [@ EXCEPT !.at = "done", !.out = out]] IN
       CASE o \in {"complete", "fail"} ->
              IF outcome = None
              THEN LET out == Outcome(IF o = "complete" THEN "value" ELSE "error", me.v) IN
                   /\ outcome' = out /\ listeners' = <<>> /\ h' = [h EXCEPT !.cbs = @ \o Run(t, listeners, out)] /\ done(Outcome("ok", ""))
              ELSE done(Outcome("rejected", "")) /\ UNCHANGED <<outcome, listeners, h>>
         [] o = "result" -> outcome # None /\ done(outcome) /\ UNCHANGED <<outcome, listeners, h>>
         [] o = "poll" -> done(IF outcome = None THEN Outcome("rejected", "") ELSE outcome) /\ UNCHANGED <<outcome, listeners, h>>
         [] o = "completed" -> done(Outcome(IF outcome # None THEN "true" ELSE "false", "")) /\ UNCHANGED <<outcome, listeners, h>>
         [] o = "failed" -> done(Outcome(IF outcome.k = "error" THEN "true" ELSE "false", "")) /\ UNCHANGED <<outcome, listeners, h>>
         [] OTHER -> /\ done(Outcome("ok", "")) /\ UNCHANGED outcome
                     /\ IF outcome = None THEN listeners' = Append(listeners, me.d) /\ UNCHANGED h
                        ELSE h' = [h EXCEPT !.cbs = @ \o Run(t, <<me.d>>, outcome)] /\ UNCHANGED listeners
    /\ now' = now + 1 /\ UNCHANGED <<prog, pc>>
Return(t) == /\ phase[t].at = "done"
             /\ h' = [h EXCEPT !.ops[phase[t].i] = [@ EXCEPT !.ret = now, !.out = phase[t].out]]
             /\ phase' = [phase EXCEPT ![t] = [at |-> "idle", i |-> 0, out |-> None]]
             /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ now' = now + 1 /\ UNCHANGED <<prog, outcome, listeners>>
Next == \E t \in Threads : Call(t) \/ Effect(t) \/ Return(t)
Spec == Init /\ [][Next]_vars
Over == \A t \in Threads : ~ENABLED (Call(t) \/ Effect(t) \/ Return(t))
Accepted == Over => HistoryVerdict(h) = "ok"
NobodyForgotten == Over /\ outcome # None => listeners = <<>> /\ \A t \in Threads : pc[t] > Len(prog[t])
Export == IOEnv.OUT = "" \/ now > 1 \/ PrintT(<<"ST", ToJson(prog)>>)
=============================================================================
