-------------------------------- MODULE LockMC --------------------------------
(* every history of a small lock; exported and replayed on the real lock     *)
EXTENDS Lock, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
World == [n |-> 1, envs |-> 2, key |-> IF IOEnv.SAME = "1" THEN <<1, 1>> ELSE <<1, 2>>]
None == [k |-> "", e |-> 1, p |-> 1, v |-> 0, ps |-> <<>>]
Ops == { [None EXCEPT !.k = "set", !.e = e, !.v = v] : e \in 1..2, v \in 0..2 }
       \cup { [None EXCEPT !.k = "update", !.e = e] : e \in 1..2 }
       \cup { [None EXCEPT !.k = "unlock", !.ps = <<1>>], [None EXCEPT !.k = "save"], [None EXCEPT !.k = "load"] }
VARIABLES st, ops
Init == st = Start(World) /\ ops = <<>>
Next == \E o \in Ops : Len(ops) < Depth /\ st' = After(World, st, o) /\ ops' = Append(ops, o)
Spec == Init /\ [][Next]_<<st, ops>>
Last == ops[Len(ops)]
\* locking one environment changes nothing for environments of other kinds, and afterwards holds exactly what is installed
UpdateIsLocal == [][ops' # ops /\ ops'[Len(ops')].k = "update" =>
                      LET e == ops'[Len(ops')].e IN st'.lock[World.key[e]] = st.inst[e] /\ \A k \in 1..2 \ {World.key[e]} : st'.lock[k] = st.lock[k]]_<<st, ops>>
\* a saved lock is found again, whatever happened to the environments meanwhile
SavedIsLoaded == ops # <<>> /\ Last.k \in {"save", "load"} => st.lock = st.disk
OnlyInstalled == \A k \in 1..2 : st.lock[k][1] \in 0..2
Export == Len(ops) # Depth \/ PrintT(<<"ST", ToJson([W |-> World, ops |-> ops])>>)
===============================================================================
