-------------------------------- MODULE Cached --------------------------------
(* Cached properties, judged by the history of reads, clears and sets.       *)
(* ops: [o (object), op, v, inv, ret, out]; runs: executions of the          *)
(* property's function [o, inv, end, by (the read that ran it), v, raised].  *)
(* Values are distinct; positions in time, 0: never.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Range(s) == { s[i] : i \in 1..Len(s) }
RunsOf(h, o) == { r \in Range(h.runs) : r.o = o }
\* what may give a property its value: a computation (over when its read is over) or a set
Sources(h, o) ==
    { [inv |-> r.inv, ret |-> h.ops[r.by].ret, v |-> r.v] : r \in { x \in RunsOf(h, o) : ~x.raised /\ x.end > 0 } }
    \cup { [inv |-> s.inv, ret |-> s.ret, v |-> s.v] : s \in { x \in Range(h.ops) : x.o = o /\ x.op = "set" } }
Resets(h, o) == { x \in Range(h.ops) : x.o = o /\ x.op \in {"clear", "clear-all", "set"} /\ x.ret > 0 }
OpVerdict(h, i) ==
    LET e == h.ops[i] IN
    IF e.ret = 0 THEN "call-never-returns"
    ELSE IF e.out.k = "crash" THEN "call-fails"
    ELSE IF e.op # "read" THEN (IF e.out.k = "ok" THEN "ok" ELSE "call-fails")
    ELSE IF e.out.k = "error" THEN
        (IF \E r \in RunsOf(h, e.o) : r.raised /\ r.by = i /\ r.v = e.out.v THEN "ok" ELSE "error-of-another-read")
    ELSE IF ~\E s \in Sources(h, e.o) : s.v = e.out.v /\ s.inv < e.ret THEN "value-from-nowhere"
    ELSE IF \A s \in { x \in Sources(h, e.o) : x.v = e.out.v } :
              \E k \in Resets(h, e.o) : s.ret > 0 /\ s.ret < k.inv /\ k.ret < e.inv THEN "outdated-value"
    ELSE "ok"
Good(h, o) == { r \in RunsOf(h, o) : ~r.raised /\ r.end > 0 }
\* without resets: computed exactly once, never by two at the same time
ObjectVerdict(h, o) ==
    LET quiet == Resets(h, o) = {}
        overlap(a, b) == a # b /\ a.inv < b.inv /\ (a.end = 0 \/ b.inv < a.end) IN
    IF quiet /\ Cardinality(Good(h, o)) > 1 THEN "computed-twice"
    ELSE IF quiet /\ \E a, b \in RunsOf(h, o) : overlap(a, b) THEN "computed-by-two-at-once"
    ELSE "ok"
Objects(h) == { e.o : e \in Range(h.ops) }
RECURSIVE First(_, _)
First(h, i) == IF i > Len(h.ops) THEN "ok" ELSE LET v == OpVerdict(h, i) IN IF v # "ok" THEN v ELSE First(h, i + 1)
CachedVerdict(h) ==
    LET v == First(h, 1) bad == { o \in Objects(h) : ObjectVerdict(h, o) # "ok" } IN
    IF bad # {} THEN ObjectVerdict(h, CHOOSE o \in bad : TRUE) ELSE v
=============================================================================
