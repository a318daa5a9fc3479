---------------------------- MODULE ResolutionMC ----------------------------
(* A conflict driven resolver as a transition system, on every problem of    *)
(* two packages with two versions: it decides one needed package at a time,  *)
(* learns the current selection as a no-good on a conflict, restarts, and    *)
(* gives up when nothing is left.  Checked: whatever it answers is right,    *)
(* and it always answers.  The problems are exported to be solved by pkm.    *)
EXTENDS Resolution, Json, IOUtils, SequencesExt

V(n) == [e |-> 0, r |-> <<n, 0>>, pre |-> <<>>, post |-> -1, dev |-> -1, loc |-> <<>>]
AnyV == [k |-> "all", text |-> "*"]
Eq(n) == [k |-> "cmp", op |-> "==", v |-> V(n), text |-> "==" \o ToString(n) \o ".0"]
Dep(q, s) == [q |-> q, s |-> s, x |-> <<>>, cond |-> <<>>, on |-> TRUE]
Options(q) == { <<>>, <<Dep(q, AnyV)>>, <<Dep(q, Eq(1))>>, <<Dep(q, Eq(2))>> }
Problems == { [n |-> 2, vers |-> <<<<V(2), V(1)>>, <<V(2), V(1)>>>>,
               deps |-> <<<<a2, a1>>, <<b2, b1>>>>, bad |-> <<<<FALSE, FALSE>>, <<FALSE, FALSE>>>>,
               root |-> ra \o rb, over |-> <<>>] :
              ra \in Options(1), rb \in Options(2), a2 \in Options(2), a1 \in Options(2),
              b2 \in Options(1), b1 \in Options(1) }
ASSUME IOEnv.OUT = "" \/ ndJsonSerialize(IOEnv.OUT, SetToSeq(Problems))

VARIABLES P, sel, nogoods, answer
vars == <<P, sel, nogoods, answer>>
Init == P \in Problems /\ sel = None(P) /\ nogoods = {} /\ answer = "none"

Forbidden(s) == s \in nogoods
Open == { p \in Needed(P, sel) : sel[p] = 0 }
Cands(p) == { i \in 1..Len(P.vers[p]) : ~Forbidden([sel EXCEPT ![p] = i])
                    /\ \A t \in Needs(P, sel) : t.q = p => Fits(P, t, i) }
Conflict == \/ \E t \in Needs(P, sel) : sel[t.q] > 0 /\ ~Fits(P, t, sel[t.q])
            \/ \E p \in Open : Cands(p) = {}
Decide == /\ answer = "none" /\ ~Conflict /\ Open # {}
          /\ \E p \in Open : \E i \in Cands(p) : sel' = [sel EXCEPT ![p] = i]
          /\ UNCHANGED <<P, nogoods, answer>>
Learn == /\ answer = "none" /\ Conflict /\ sel # None(P)
         /\ nogoods' = nogoods \cup {sel} /\ sel' = None(P) /\ UNCHANGED <<P, answer>>
GiveUp == answer = "none" /\ Conflict /\ sel = None(P) /\ answer' = "unsolvable" /\ UNCHANGED <<P, sel, nogoods>>
Finish == answer = "none" /\ ~Conflict /\ Open = {} /\ answer' = "solved" /\ UNCHANGED <<P, sel, nogoods>>
Next == Decide \/ Learn \/ GiveUp \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AnswerSound == answer = "solved" => Solution(P, sel)
AnswerComplete == answer = "unsolvable" => ~Solvable(P)
LearntSound == \A g \in nogoods : ~\E i, j \in 0..2 :
                  LET s == <<i, j>> IN (\A p \in 1..2 : g[p] > 0 => s[p] = g[p]) /\ Solution(P, s)
PreferredIsSolution == Consistent(P, Preferred(P)) => Solution(P, Preferred(P)) /\ Solvable(P)
Terminates == <>(answer # "none")
=============================================================================
