------------------------------- MODULE SiteMC -------------------------------
(* The site as a transition system over small worlds: every operation leads  *)
(* to any state that its contract (Site) allows.  Checked: the contracts     *)
(* keep the site working, and never ask for the impossible.  Every reachable *)
(* (world, state, operation) is exported and executed by pkm.                *)
EXTENDS Site, TLC, Json, IOUtils, SequencesExt

Ver(n) == [e |-> 0, r |-> <<n, 0>>, pre |-> <<>>, post |-> -1, dev |-> -1, loc |-> <<>>]
AnyV == [k |-> "all", text |-> "*"]
Eq(n) == [k |-> "cmp", op |-> "==", v |-> Ver(n), text |-> "==" \o ToString(n) \o ".0"]
Dep(q, s) == [q |-> q, s |-> s, x |-> <<>>, cond |-> <<>>, on |-> TRUE]
Options(q) == { <<>>, <<Dep(q, AnyV)>>, <<Dep(q, Eq(1))>>, <<Dep(q, Eq(2))>> }
Pool == << Dep(1, AnyV), Dep(1, Eq(1)), Dep(1, Eq(2)), Dep(2, AnyV), Dep(2, Eq(1)), Dep(2, Eq(2)) >>
World(a2, a1, b2, b1) == [n |-> 2, vers |-> <<<<Ver(2), Ver(1)>>, <<Ver(2), Ver(1)>>>>,
                          deps |-> <<<<a2, a1>>, <<b2, b1>>>>, pool |-> Pool]
Small == IOEnv.SMALL = "1"
Worlds == { World(a2, a1, b2, b1) : a2 \in Options(2), a1 \in IF Small THEN { <<>>, <<Dep(2, Eq(2))>> } ELSE Options(2),
                                    b2 \in Options(1), b1 \in IF Small THEN { <<>>, <<Dep(1, Eq(1))>> } ELSE Options(1) }
On == <<<<FALSE, FALSE>>, <<FALSE, FALSE>>>>
InstallOps == { [k |-> "install", d |-> d, user |-> TRUE, up |-> up, over |-> <<>>, off |-> On, u |-> <<>>] :
                d \in { <<i>> : i \in 1..6 } \cup (IF Small THEN { <<1, 4>>, <<2, 6>> } ELSE { <<i, j>> : i \in 1..3, j \in 4..6 }),
                up \in (IF Small THEN { <<>>, <<1>> } ELSE { <<>>, <<1>>, <<1, 2>> }) }
RemoveOps == { [k |-> k, d |-> <<>>, user |-> FALSE, up |-> <<>>, over |-> <<>>, off |-> On, u |-> u] :
               k \in {"uninstall"}, u \in { <<1>>, <<2>>, <<1, 2>> } }
             \cup { [k |-> "remove", d |-> <<>>, user |-> FALSE, up |-> <<>>, over |-> <<>>, off |-> On, u |-> <<p>>] : p \in 1..2 }
Ops == InstallOps \cup RemoveOps
States == { [v |-> v, r |-> r] : v \in [1..2 -> 0..2], r \in [1..2 -> 0..6] }

VARIABLES W, st, forced
vars == <<W, st, forced>>
Init == W \in Worlds /\ st = [v |-> <<0, 0>>, r |-> <<0, 0>>] /\ forced = FALSE

After(o) == LET vs == [1..2 -> 0..2] IN
    IF o.k = "install"
    THEN IF AddingPossible(W, st, o) \/ ChangingPossible(W, st, o)
         THEN { s \in { [v |-> v, r |-> FlagsAfter(W, st, o, v)] : v \in vs } : Install(W, st, o, s) = "ok" }
         ELSE {st}
    ELSE IF o.k = "uninstall"
    THEN { s \in { [v |-> v, r |-> [p \in 1..2 |-> IF v[p] = 0 \/ p \in Ran(o.u) THEN 0 ELSE st.r[p]]] : v \in vs } :
             Uninstall(W, st, o, s, SetToSeq({ p \in Ran(o.u) : st.v[p] > 0 /\ s.v[p] = 0 })) = "ok" }
    ELSE {[v |-> [st.v EXCEPT ![o.u[1]] = 0], r |-> [st.r EXCEPT ![o.u[1]] = 0]]}
Step(o) == /\ st' \in After(o) /\ forced' = (forced \/ o.k = "remove") /\ UNCHANGED W
Next == \E o \in Ops : Step(o)
Spec == Init /\ [][Next]_vars

RequestsHold == forced \/ WellFormed(W, st)
FlagsOnlyOnInstalled == \A p \in 1..2 : st.r[p] > 0 => st.v[p] > 0
RequestedVersions == forced \/ \A p \in 1..2 : st.r[p] > 0 => In(W.pool[st.r[p]].s, W.vers[p][st.v[p]])
\* no contract contradicts itself: some outcome is always allowed
Possible == \A o \in Ops : After(o) # {}
\* uninstalling everything empties the site
Empties == LET o == [k |-> "uninstall", d |-> <<>>, user |-> FALSE, up |-> <<>>, over |-> <<>>, off |-> On, u |-> <<1, 2>>]
           IN \E s \in After(o) : s.v = <<0, 0>>
Export == IOEnv.OUT = "" \/ PrintT(<<"ST", ToJson([W |-> W, st |-> st])>>)
=============================================================================
