-------------------------------- MODULE TxnMC --------------------------------
(* The undo log of a transaction: what it made and what it moved away, in    *)
(* order.  Checked: whatever the operations were, and wherever the           *)
(* transaction stopped, undoing the log from its end restores exactly what   *)
(* was there before.                                                         *)
EXTENDS Txn, Json, IOUtils, SequencesExt
Depth == IF IOEnv.DEPTH = "3" THEN 3 ELSE 2
Initial == { fs \in [Paths -> {"none", "dir", "old"}] : Tree(fs) /\ fs["d/a"] # "dir" /\ fs["d/e/b"] # "dir" /\ fs["c"] # "dir" }
           \cup { [fs EXCEPT !["c"] = "link"] : fs \in { f \in [Paths -> {"none", "dir", "old"}] : Tree(f) /\ f["d/a"] # "dir" /\ f["d/e/b"] # "dir" } }
Op(k, p) == [k |-> k, p |-> p, c |-> ""]
Ops == { Op("copy", p) : p \in Paths } \cup { Op("mkdir", p) : p \in {"d", "d/e", "c"} }
       \cup { Op("rm", p) : p \in {"d", "d/a", "d/e", "c"} } \cup { Op("tree", "d") }
       \cup { Op("write", p) : p \in {"d/a", "c"} }
VARIABLES fs0, fs, log, n, hist
vars == <<fs0, fs, log, n, hist>>
Init == fs0 \in Initial /\ fs = fs0 /\ log = <<>> /\ n = 0 /\ hist = <<>>
Made(p) == [p |-> p, was |-> <<>>]
Moved(f, p) == IF f[p] = "none" THEN <<>> ELSE << [p |-> p, was |-> [q \in {p} \cup Under(p) |-> f[q]]] >>
\* the missing directories above a path, topmost first
MissingAbove(f, p) == SetToSortSeq({ q \in Above(p) : f[q] = "none" }, LAMBDA x, y : x \in Above(y))
MadeDirs(f, p) == [i \in 1..Len(MissingAbove(f, p)) |-> Made(MissingAbove(f, p)[i])]
Put(s, p, c) == [fs |-> PutFile(s.fs, p, c), log |-> s.log \o Moved(s.fs, p) \o MadeDirs(s.fs, p) \o <<Made(p)>>]
Stepped(s, o) ==
    CASE o.k \in {"copy", "write"} -> Put(s, o.p, o.c)
      [] o.k = "mkdir" -> IF s.fs[o.p] # "none" THEN s
                          ELSE [fs |-> MakeDirs(s.fs, o.p), log |-> s.log \o MadeDirs(s.fs, o.p) \o <<Made(o.p)>>]
      [] o.k = "rm" -> [fs |-> Gone(s.fs, o.p), log |-> s.log \o Moved(s.fs, o.p)]
      [] o.k = "tree" -> Put(Put(s, "d/a", o.c \o "-tree-a"), "d/e/b", o.c \o "-tree-b")
Next == /\ n < Depth
        /\ \E o0 \in Ops : LET o == [o0 EXCEPT !.c = "new" \o ToString(n)]  s == Stepped([fs |-> fs, log |-> log], o) IN
             /\ ~Raises(fs, o)
             /\ fs' = s.fs /\ log' = s.log /\ hist' = Append(hist, o)
        /\ n' = n + 1 /\ UNCHANGED fs0
Spec == Init /\ [][Next]_vars

\* undoing one entry: what was moved away comes back, what was made goes (a directory only when nothing is left in it)
Undone(f, e) ==
    IF DOMAIN e.was # {} THEN [q \in Paths |-> IF q \in DOMAIN e.was THEN e.was[q] ELSE f[q]]
    ELSE IF f[e.p] = "dir" /\ \E q \in Under(e.p) : f[q] # "none" THEN f
    ELSE [f EXCEPT ![e.p] = "none"]
RECURSIVE Undo(_, _)
Undo(f, es) == IF es = <<>> THEN f ELSE Undo(Undone(f, es[Len(es)]), SubSeq(es, 1, Len(es) - 1))
Restores == Undo(fs, log) = fs0
Agrees == Run(fs0, hist) = [fs |-> fs, raised |-> FALSE]
WellFormedFs == Tree(fs)
Export == IOEnv.OUT = "" \/ Len(hist) < Depth \/ PrintT(<<"ST", ToJson([fs |-> fs0, ops |-> hist])>>)
=============================================================================
