------------------------------- MODULE Promise -------------------------------
(* Promises, judged by the history of what threads did with them.            *)
(* A history: promises, each of kind "simple" or "future" (completed by      *)
(* threads) or "derived" (completed by a callback);                          *)
(* ops: what threads called, [p, op, v, d, inv, ret, out] - inv and ret are  *)
(* positions in time, ret = 0: the call never returned;                      *)
(* cbs: executions of callbacks [d, by, inv, ret, saw], by: the operation    *)
(* that executed it (it completes the derived promise before it returns).    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == { s[i] : i \in 1..Len(s) }
Returned(o) == o.ret > 0
Before(a, b) == a.ret > 0 /\ a.ret < b.inv        \* a was over before b began

Outcome(k, v) == [k |-> k, v |-> v]

\* who completed promise p: a call that was not rejected, or the callback of a derived promise
Winners(h, p) ==
    IF h.promises[p].kind = "derived"
    THEN { [inv |-> c.inv, ret |-> h.ops[c.by].ret, cancel |-> FALSE,
            out |-> Outcome(IF h.promises[p].mode = "raise" THEN "error" ELSE "value", h.promises[p].v)] : c \in { x \in Range(h.cbs) : x.d = p } }
    ELSE { [inv |-> o.inv, ret |-> o.ret, cancel |-> o.op = "cancel",
            out |-> Outcome(CASE o.op = "complete" -> "value" [] OTHER -> "error", IF o.op = "cancel" THEN "cancelled" ELSE o.v)] :
           o \in { x \in Range(h.ops) : x.p = p /\ \/ x.op \in {"complete", "fail"} /\ x.out.k \notin {"rejected", "crash"}
                                                   \/ x.op = "cancel" /\ h.promises[p].kind = "future" /\ x.out.k = "true" } }
\* p was certainly complete before a call began
Settled(h, p, o) == LET W == Winners(h, p) IN
    (\E w \in W : Before(w, o)) /\ \A w \in W : w.inv < o.inv => Before(w, o)
\* p may have been complete before a call was over
Possible(h, p, o) == \E w \in Winners(h, p) : w.inv < o.ret
OutcomeOf(h, p) == (CHOOSE w \in Winners(h, p) : TRUE).out

OpVerdict(h, o) ==
    LET p == o.p  kind == h.promises[p].kind IN
    IF o.out.k = "crash" THEN "call-fails"
    ELSE CASE
       o.op \in {"complete", "fail"} ->
           IF ~Returned(o) THEN "completion-blocks"
           ELSE IF o.out.k = "rejected" /\ ~Possible(h, p, o) THEN "completion-rejected-without-a-winner"
           ELSE IF o.out.k = "ok" /\ Settled(h, p, o) THEN "completed-twice"
           ELSE "ok"
    [] o.op = "result" ->
           IF ~Returned(o) THEN (IF Winners(h, p) # {} THEN "waits-for-a-completed-promise" ELSE "ok")
           ELSE IF ~Possible(h, p, o) THEN "result-before-completion"
           ELSE IF o.out # OutcomeOf(h, p) THEN "wrong-result" ELSE "ok"
    [] o.op = "poll" ->
           IF ~Returned(o) THEN "poll-blocks"
           ELSE IF o.out.k = "rejected" THEN (IF Settled(h, p, o) THEN "completed-promise-has-no-result" ELSE "ok")
           ELSE IF ~Possible(h, p, o) THEN "result-before-completion"
           ELSE IF o.out # OutcomeOf(h, p) THEN "wrong-result" ELSE "ok"
    [] o.op \in {"completed", "failed", "succeeded"} ->
           IF ~Returned(o) THEN "state-query-blocks"
           ELSE LET yes == Winners(h, p) # {} /\ (o.op = "completed" \/ (o.op = "failed") = (OutcomeOf(h, p).k = "error")) IN
                IF o.out.k = "true" /\ ~(yes /\ Possible(h, p, o)) THEN "state-claimed-too-early-or-wrong"
                ELSE IF o.out.k = "false" /\ yes /\ Settled(h, p, o) THEN "completed-state-denied"
                ELSE IF o.op = "completed" /\ o.out.k = "false" /\ \E x \in Range(h.ops) : x.p = p /\ x.op = "completed" /\ x.out.k = "true" /\ Before(x, o)
                     THEN "completion-taken-back"
                ELSE "ok"
    [] o.op = "when" ->
           LET C == { c \in Range(h.cbs) : c.d = o.d } IN
           IF ~Returned(o) THEN "registration-blocks"
           ELSE IF Cardinality({ i \in 1..Len(h.cbs) : h.cbs[i].d = o.d }) > 1 THEN "callback-called-twice"
           ELSE IF Winners(h, p) # {} /\ C = {} THEN "callback-never-called"
           ELSE IF Winners(h, p) = {} /\ C # {} THEN "callback-before-completion"
           ELSE IF \E c \in C : c.saw # OutcomeOf(h, p) THEN "callback-sees-another-outcome"
           ELSE IF \E c \in C : ~\E w \in Winners(h, p) : w.inv < c.inv THEN "callback-before-completion"
           ELSE "ok"
    [] o.op = "cancel" -> IF ~Returned(o) THEN "cancel-blocks" ELSE "ok"
    [] OTHER -> "unknown-operation"

RECURSIVE First(_, _, _)
First(h, S, i) == IF i > Len(S) THEN "ok" ELSE LET v == OpVerdict(h, S[i]) IN IF v # "ok" THEN v ELSE First(h, S, i + 1)
HistoryVerdict(h) ==
    LET twice(p) == LET W == Winners(h, p) IN
            /\ h.promises[p].kind # "derived"
            /\ Cardinality({ w \in W : ~w.cancel }) > 1 \/ (Cardinality({ w.out : w \in W }) > 1)
    IN IF \E p \in 1..Len(h.promises) : twice(p) THEN "completed-twice" ELSE First(h, h.ops, 1)

\* waiting for several tasks: [out, tasks: [outcome, start, end]], ret: when the waiting was over
AwaitVerdict(h) ==
    LET T == Range(h.tasks)  bad == { t \in T : t.out.k = "error" } IN
    IF h.ret = 0 THEN "waiting-never-ends"
    ELSE IF h.out.k = "value" /\ \E t \in T : t.out.k # "value" THEN "failure-not-reported"
    ELSE IF h.out.k = "error" /\ ~\E t \in bad : t.out.v = h.out.v THEN "reports-an-error-nobody-had"
    ELSE IF h.out.k = "error" /\ bad = {} THEN "successful-tasks-reported-as-failed"
    ELSE IF h.out.k \notin {"value", "error"} THEN "waiting-fails"
    ELSE IF \E t \in T : t.end > h.ret \/ (t.start > 0 /\ t.end = 0) THEN "tasks-still-run"
    ELSE "ok"
=============================================================================
