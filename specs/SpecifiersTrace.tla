--------------------------- MODULE SpecifiersTrace ---------------------------
EXTENDS Specifiers, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, judged

Plain(v) == v.post < 0 /\ v.loc = <<>>

(* the universe that stands for all (plain) versions when emptiness and       *)
(* containment are decided: every possible bound, a version strictly between  *)
(* any two consecutive bounds, and one at each end.                           *)
Witnesses == Trace[1].witnesses
Bounds == Trace[1].bounds
ASSUME /\ \A i \in 1..Len(Bounds) : \E j \in 1..Len(Witnesses) : Same(Bounds[i], Witnesses[j])
       /\ \A i \in 1..Len(Bounds), j \in 1..Len(Bounds) :
            Less(Bounds[i], Bounds[j]) => \E w \in 1..Len(Witnesses) :
                 Less(Bounds[i], Witnesses[w]) /\ Less(Witnesses[w], Bounds[j])
       /\ \A i \in 1..Len(Bounds) : \E j, k \in 1..Len(Witnesses) :
            Less(Witnesses[j], Bounds[i]) /\ Less(Bounds[i], Witnesses[k])
       /\ \A j \in 1..Len(Witnesses) : Plain(Witnesses[j])

\* membership of single specifiers, of every kind of version
Member(t) ==
    IF t.error # "" THEN "specifier-raised"
    ELSE LET bad == { i \in 1..Len(t.vs) : t.allows[i] # In(t.s, t.vs[i]) } IN
         IF bad # {} THEN (LET j == CHOOSE i \in bad : TRUE IN
              IF IsPost(t.vs[j]) THEN "membership-of-post-release"
              ELSE IF IsLocal(t.vs[j]) THEN "membership-of-local-version"
              ELSE "membership-" \o t.s.k)
         ELSE IF t.rtchecked /\ \E i \in 1..Len(t.vs) : t.rt[i] # t.allows[i] THEN "print-parse-round-trip"
         ELSE "ok"

\* a, b expressions, and what the implementation computed from the two
Den(s) == { i \in 1..Len(Witnesses) : In(s, Witnesses[i]) }
Got(f) == { i \in 1..Len(Witnesses) : f[i] }
Results(A, B) == << A, B, A \cap B, A \cup B, A \ B, (1..Len(Witnesses)) \ A >>
Algebra(t) ==
    IF t.error # "" THEN "set-operation-raised"
    ELSE LET A == Den(t.a) B == Den(t.b) U == 1..Len(Witnesses) IN
      IF Got(t.fa) # A \/ Got(t.fb) # B THEN "composite-specifier-membership"
      ELSE IF Got(t.fand) # A \cap B THEN "intersection"
      ELSE IF Got(t.for) # A \cup B THEN "union"
      ELSE IF Got(t.fdiff) # A \ B THEN "difference"
      ELSE IF Got(t.fnot) # U \ A THEN "inverse"
      ELSE IF Got(t.fa2) # A \/ Got(t.fb2) # B THEN "operand-modified-by-operation"
      ELSE IF t.any # (A \cap B # {}) THEN "allows-any"
      ELSE IF A # {} /\ B # {} /\ t.all # (B \subseteq A) THEN "allows-all"
      ELSE IF \E i \in 1..Len(t.printed) : t.printed[i] # <<>> /\ Got(t.printed[i]) # Results(A, B)[i] THEN "result-print-parse"
      ELSE IF \E i \in 1..Len(t.nothing) : t.nothing[i] # (Results(A, B)[i] = {}) THEN "nothing-is-recognized"
      ELSE IF t.eq /\ A # B THEN "equal-specifiers-differ"
      ELSE IF t.eq /\ ~t.heq THEN "equal-specifiers-hash-differently"
      ELSE IF t.txt /\ ~(t.eq /\ t.heq) THEN "identical-specifiers-not-equal"
      ELSE "ok"

Verdict(t) == CASE t.op = "universe" -> "ok" [] t.op = "member" -> Member(t) [] t.op = "algebra" -> Algebra(t)

Init == l \in 1..Len(Trace) /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
        /\ LET v == Verdict(Trace[l]) IN v = "ok" \/ PrintT(<<"BAD", l, v>>)
Judged == TRUE
=============================================================================
