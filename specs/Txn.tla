--------------------------------- MODULE Txn ---------------------------------
(* A transaction of file operations that is either committed or rolled back. *)
(* Paths: d, d/a, d/e, d/e/b, c .  A file system maps a path to "none",      *)
(* "dir", or the content of the file there ("link...": a symbolic link).     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Paths == {"d", "d/a", "d/e", "d/e/b", "c"}
Parent(p) == CASE p = "d" -> "" [] p = "c" -> "" [] p = "d/a" -> "d" [] p = "d/e" -> "d" [] p = "d/e/b" -> "d/e"
RECURSIVE Above(_)
Above(p) == IF Parent(p) = "" THEN {} ELSE {Parent(p)} \cup Above(Parent(p))
Under(p) == { q \in Paths : p \in Above(q) }
IsFile(fs, p) == fs[p] \notin {"none", "dir"}
Tree(fs) == \A p \in Paths : fs[p] # "none" /\ Parent(p) # "" => fs[Parent(p)] = "dir"
Gone(fs, p) == [q \in Paths |-> IF q = p \/ q \in Under(p) THEN "none" ELSE fs[q]]

\* the operations: does one raise, and what does the file system look like after it
MakeDirs(fs, p) == [q \in Paths |-> IF (q = p \/ q \in Above(p)) /\ fs[q] = "none" THEN "dir" ELSE fs[q]]
Blocked(fs, p) == \E q \in Above(p) : IsFile(fs, q)
PutFile(fs, p, c) == [MakeDirs(Gone(fs, p), p) EXCEPT ![p] = c]
TreeFiles == << <<"d/a", "-tree-a">>, <<"d/e/b", "-tree-b">> >>
Raises(fs, o) ==
    CASE o.k \in {"copy", "write"} -> Blocked(fs, o.p)
      [] o.k = "mkdir" -> Blocked(fs, o.p)
      [] o.k = "rm" -> fs[o.p] = "none"
      [] o.k = "tree" -> IsFile(fs, "d") \/ IsFile(fs, "d/e")
Effect(fs, o) ==
    CASE o.k \in {"copy", "write"} -> PutFile(fs, o.p, o.c)
      [] o.k = "mkdir" -> IF IsFile(fs, o.p) THEN fs ELSE MakeDirs(fs, o.p)
      [] o.k = "rm" -> Gone(fs, o.p)
      [] o.k = "tree" -> PutFile(PutFile(fs, "d/a", o.c \o TreeFiles[1][2]), "d/e/b", o.c \o TreeFiles[2][2])
RECURSIVE Run(_, _)
Run(fs, ops) == IF ops = <<>> THEN [fs |-> fs, raised |-> FALSE]
                ELSE IF Raises(fs, Head(ops)) THEN [fs |-> fs, raised |-> TRUE]
                ELSE Run(Effect(fs, Head(ops)), Tail(ops))
=============================================================================
