--------------------------------- MODULE Lock ---------------------------------
(* The lock of a project that is developed in several environments.          *)
(* W: n (packages), envs (number of environments), key (the kind of each     *)
(*    environment: environments of one kind share their locks)               *)
(* st: inst[e][p] (installed version, 0: none), lock[k][p] (locked by kind   *)
(*    k, 0: none), disk[k][p] (what the lock file holds)                     *)
(* op: set (e, p, v: the environment changes), update (e), unlock (ps),      *)
(*    save, load, swap (the lock is used by a newly started program: load)   *)
EXTENDS Naturals, Sequences, FiniteSets
Kinds(W) == { W.key[e] : e \in 1..W.envs }
Empty(W) == [k \in 1..W.envs |-> [p \in 1..W.n |-> 0]]
Start(W) == [inst |-> [e \in 1..W.envs |-> [p \in 1..W.n |-> 0]], lock |-> Empty(W), disk |-> Empty(W)]
Elems(s) == { s[i] : i \in 1..Len(s) }
After(W, st, o) ==
    CASE o.k = "set" -> [st EXCEPT !.inst[o.e][o.p] = o.v]
      [] o.k = "update" -> [st EXCEPT !.lock[W.key[o.e]] = st.inst[o.e]]
      [] o.k = "unlock" -> [st EXCEPT !.lock = [k \in 1..W.envs |-> [p \in 1..W.n |-> IF p \in Elems(o.ps) THEN 0 ELSE st.lock[k][p]]]]
      [] o.k = "save" -> [st EXCEPT !.disk = st.lock]
      [] OTHER -> [st EXCEPT !.lock = st.disk]
\* what is locked for an environment, and what others locked
Own(W, st, e, p) == IF st.lock[W.key[e]][p] = 0 THEN {} ELSE { st.lock[W.key[e]][p] }
Others(W, st, e, p) == { st.lock[k][p] : k \in Kinds(W) \ {W.key[e]} } \ {0}
Rank(W, st, e, p, v) == IF v \in Own(W, st, e, p) THEN 0 ELSE IF v \in Others(W, st, e, p) THEN 1 ELSE 2
Index(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
\* the answer to "which packages match" orders by preference, equally preferred ones stay in the order of the repository
Ordered(W, st, e, p, offered, got) ==
    /\ Len(got) = Len(offered) /\ Elems(got) = Elems(offered)
    /\ \A i, j \in 1..Len(got) : i < j =>
         LET a == Rank(W, st, e, p, got[i]) b == Rank(W, st, e, p, got[j])
         IN a < b \/ (a = b /\ Index(offered, got[i]) < Index(offered, got[j]))
\* the versions to try: that of the environment first, those of others after it
Tried(W, st, e, p, got) ==
    /\ Elems(got) = Own(W, st, e, p) \cup Others(W, st, e, p)
    /\ Own(W, st, e, p) # {} => got[1] \in Own(W, st, e, p)
Specific(W, st, e, got) == /\ Len(got) = Cardinality(Elems(got))
                           /\ Elems(got) = { <<p, st.lock[W.key[e]][p]>> : p \in { q \in 1..W.n : st.lock[W.key[e]][q] # 0 } }
\* o: an observation after the operation: per environment: specific, tried (per package), offered and got (per package)
Observed(W, st, o) ==
    IF \E e \in 1..W.envs : ~Specific(W, st, e, o.specific[e]) THEN "environment-locks-wrong"
    ELSE IF \E e \in 1..W.envs, p \in 1..W.n : ~Tried(W, st, e, p, o.tried[e][p]) THEN "locked-versions-wrong"
    ELSE IF \E e \in 1..W.envs, p \in 1..W.n : ~Ordered(W, st, e, p, o.offered[e][p], o.got[e][p]) THEN "locked-version-not-preferred"
    ELSE "ok"
\* t.W, t.ops, t.out (per operation: "ok" or an error), t.obs (per operation)
RECURSIVE Walk(_, _, _)
Walk(t, i, st) ==
    IF i > Len(t.ops) THEN "ok"
    ELSE IF t.out[i] # "ok" THEN t.ops[i].k \o "-fails-with-" \o t.out[i]
    ELSE LET s2 == After(t.W, st, t.ops[i])
             v == Observed(t.W, s2, t.obs[i])
         IN IF v # "ok" THEN v \o "-after-" \o t.ops[i].k ELSE Walk(t, i + 1, s2)
LockVerdict(t) == Walk(t, 1, Start(t.W))
===============================================================================
