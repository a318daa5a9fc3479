----------------------------- MODULE VersionsMC -----------------------------
(* The order is checked to be a total order on an enumerated universe, which *)
(* is then exported for the conformance driver.                              *)
EXTENDS Versions, Json, IOUtils, FiniteSets

N(x) == [n |-> TRUE, v |-> x, t |-> ToString(x)]
T(x, rank) == [n |-> FALSE, v |-> rank, t |-> x]
Mk(e, r, pre, post, dev, loc) == [e |-> e, r |-> r, pre |-> pre, post |-> post, dev |-> dev, loc |-> loc]

Pres == { <<>>, <<0, 0>>, <<0, 1>>, <<1, 1>>, <<2, 0>>, <<2, 10>> }
Core == { Mk(0, r, p, po, d, <<>>) : r \in { <<1>>, <<1, 0>> }, p \in Pres, po \in {-1, 0, 2}, d \in {-1, 0, 3} }
Rels == { Mk(e, r, p, -1, -1, <<>>) : e \in {0, 1}, p \in { <<>>, <<2, 1>> },
          r \in { <<0>>, <<0, 1>>, <<1, 0, 0>>, <<1, 0, 1>>, <<1, 2>>, <<1, 10>>, <<2>>, <<2, 0>>, <<2012, 10>>, <<1, 2, 3, 4>> } }
Locs == { Mk(0, <<1, 1>>, p, po, -1, l) : p \in { <<>>, <<1, 2>> }, po \in {-1, 1},
          l \in { <<>>, <<T("a", 1)>>, <<T("ubuntu", 3)>>, <<N(2)>>, <<N(10)>>, <<N(2), T("b", 2)>>, <<T("a", 1), N(1)>>, <<T("b", 2)>>, <<N(0)>> } }
Universe == Core \cup Rels \cup Locs

VARIABLE a, b
Init == a \in Universe /\ b = a
Next == b = a /\ a' = a /\ b' \in Universe
Total == /\ Cmp(a, b) = -Cmp(b, a)
         /\ (Cmp(a, b) = 0 => \A c \in Universe : Cmp(a, c) = Cmp(b, c))
Transitive == \A c \in Locs \cup Rels : (Less(a, b) /\ Less(b, c)) => Less(a, c)
LocalIsLarger == (Same(Public(a), b) /\ IsLocal(a)) => Less(b, a)
DevFirst == (a.dev >= 0 /\ b = [a EXCEPT !.dev = -1]) => Less(a, b)
PreBeforeFinal == (b.pre # <<>> /\ b.post < 0 /\ b.dev < 0 /\ a = [b EXCEPT !.pre = <<>>]) => Less(b, a)
PostAfter == (b.post >= 0 /\ a = [b EXCEPT !.post = -1] /\ b.dev < 0) => Less(a, b)
Export == JsonSerialize(IOEnv.OUT, [u |-> { [v |-> x, c |-> Canon(x)] : x \in Universe }])
ASSUME Export
=============================================================================
