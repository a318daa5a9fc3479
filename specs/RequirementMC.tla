------------------------------ MODULE RequirementMC ------------------------------
(* all markers with up to DEPTH levels over three atoms, in all environments        *)
EXTENDS Requirement, TLC, Json, IOUtils
V(a, b) == [e |-> 0, r |-> <<a, b>>, pre |-> <<>>, post |-> -1, dev |-> -1, loc |-> <<>>]
Lit(s, v) == [k |-> "str", s |-> s, v |-> v, w |-> FALSE]
Var(n) == [k |-> "var", n |-> n]
Atoms == { [k |-> "cmp", op |-> "==", l |-> Var("sys_platform"), r |-> Lit("linux", <<>>)],
           [k |-> "cmp", op |-> "<", l |-> Var("python_version"), r |-> Lit("3.10", <<V(3, 10)>>)],
           [k |-> "extra", x |-> "fast"] }
Pairs(S, T) == { [k |-> k, l |-> a, r |-> b] : k \in {"and", "or"}, a \in S, b \in T }
D1 == Atoms \cup Pairs(Atoms, Atoms)
D2 == D1 \cup Pairs(D1, Atoms) \cup Pairs(Atoms, D1)
D3 == D2 \cup Pairs(D1, D1)
Markers == IF IOEnv.DEPTH = "3" THEN D3 ELSE D2
Cases == { [env |-> [sys_platform |-> [s |-> s, v |-> <<>>], python_version |-> p], extras |-> x] :
             s \in {"linux", "win32"}, p \in { [s |-> "3.9", v |-> <<V(3, 9)>>], [s |-> "3.10", v |-> <<V(3, 10)>>] }, x \in { <<>>, <<"fast">>, <<"slow", "fast">> } }
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
VARIABLES m
Init == m \in Markers
Next == UNCHANGED m
Spec == Init /\ [][Next]_m
Swap(x) == IF x.k \in {"and", "or"} THEN [x EXCEPT !.l = x.r, !.r = x.l] ELSE x
\* the sides may be written in any order, a marker that applies without an extra applies with it too
Commutes == \A c \in Cases : Applies(m, c) = Applies(Swap(m), c)
MonotoneInExtras == \A c \in Cases : c.extras = <<>> /\ Applies(m, c) => Applies(m, [c EXCEPT !.extras = <<"fast">>])
OnlyWhatIsNamed == \A c \in Cases : Applies(m, c) = Applies(m, [c EXCEPT !.extras = SelectSeq(c.extras, LAMBDA x : x = "fast")])
Export == PrintT(<<"ST", ToJson([marker |-> m, cases |-> SetToSeq(Cases)])>>)
====================================================================================
