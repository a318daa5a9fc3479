----------------------------- MODULE Resolution -----------------------------
(* Dependency resolution problems and their solutions.                       *)
(* A problem is a record                                                     *)
(*   n     number of packages, packages are 1..n                             *)
(*   vers  per package, its available versions in order of preference        *)
(*   deps  per package, per version, sequence of dependencies                *)
(*   bad   per package, per version, whether its metadata is malformed       *)
(*   root  sequence of the user's dependencies                               *)
(*   over  sequence of overrides [p, d]: dependencies on p are replaced by d *)
(* A dependency is [q: package, s: specifier, x: sequence of extras,         *)
(*                  cond: sequence of extras: applicable only if one of them *)
(*                  is requested (<<>> = always), on: holds in environment]  *)
EXTENDS Specifiers, FiniteSets

Ran(s) == { s[i] : i \in 1..Len(s) }
Replace(P, d) == IF \E o \in Ran(P.over) : o.p = d.q
                 THEN (CHOOSE o \in Ran(P.over) : o.p = d.q).d ELSE d
\* a request: a package, what is required of its version, the extras asked for
Request(P, d) == LET e == Replace(P, d) IN [q |-> e.q, s |-> e.s, x |-> Ran(e.x)]
Applies(d, x) == d.on /\ (d.cond = <<>> \/ Ran(d.cond) \cap x # {})
Requests(P, ds, x) == { Request(P, d) : d \in { d \in Ran(ds) : Applies(d, x) } }
RootRequests(P) == Requests(P, P.root, {})

Fits(P, t, i) == i > 0 /\ ~P.bad[t.q][i] /\ In(t.s, P.vers[t.q][i])

\* all the requests made when the packages are at versions sel (0: not there)
RECURSIVE Closure(_, _, _, _)
Closure(P, sel, done, todo) ==
    IF todo = {} THEN done
    ELSE LET t == CHOOSE t \in todo : TRUE
             more == IF sel[t.q] = 0 THEN {} ELSE Requests(P, P.deps[t.q][sel[t.q]], t.x)
         IN Closure(P, sel, done \cup {t}, (todo \cup more) \ (done \cup {t}))

Needs(P, sel) == Closure(P, sel, {}, RootRequests(P))
Consistent(P, sel) == \A t \in Needs(P, sel) : Fits(P, t, sel[t.q])
Needed(P, sel) == { t.q : t \in Needs(P, sel) }
Solution(P, sel) == Consistent(P, sel) /\ \A p \in 1..P.n : sel[p] > 0 => p \in Needed(P, sel)

\* is there any solution: depth first over the open requests
RECURSIVE Search(_, _, _, _)
Search(P, sel, done, todo) ==
    IF todo = {} THEN TRUE
    ELSE LET t == CHOOSE t \in todo : TRUE
             cand == IF sel[t.q] > 0 THEN {sel[t.q]} ELSE 1..Len(P.vers[t.q])
         IN \E i \in cand :
              /\ Fits(P, t, i)
              /\ Search(P, [sel EXCEPT ![t.q] = i], done \cup {t},
                        (todo \cup Requests(P, P.deps[t.q][i], t.x)) \ (done \cup {t}))
None(P) == [p \in 1..P.n |-> 0]
Solvable(P) == Search(P, None(P), {}, RootRequests(P))

\* everything at its first version that the user's own requests allow
FirstFit(P, p) == LET ok == { i \in 1..Len(P.vers[p]) :
                               ~P.bad[p][i] /\ \A t \in RootRequests(P) : t.q = p => In(t.s, P.vers[p][i]) }
                  IN IF ok = {} THEN 0 ELSE CHOOSE i \in ok : \A j \in ok : i <= j
Preferred(P) == LET f == [p \in 1..P.n |-> FirstFit(P, p)]
                    need == Needed(P, f)
                IN [p \in 1..P.n |-> IF p \in need THEN f[p] ELSE 0]
=============================================================================
