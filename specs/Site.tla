-------------------------------- MODULE Site --------------------------------
(* An installation site: which packages are installed, which of them the     *)
(* user asked for, and what the operations on it may do.                     *)
(* World W: n, vers, deps as in Resolution, pool: sequence of dependencies   *)
(*   that users ask for (requests are indexes into it).                      *)
(* State st: v[p] index of the installed version, 0 = not installed          *)
(*           r[p] the user's request of p (index into W.pool), 0 = none,     *)
(*                -1 = a request that nobody made                            *)
(* Operations:                                                               *)
(*   install   d: sequence of pool indexes, user: flag as requested,         *)
(*             up: packages to update, over: overrides, off: per package and *)
(*             version, whether the repository lacks it                      *)
(*   uninstall u: sequence of packages                                       *)
(*   remove    u: sequence of one package (forced removal)                   *)
EXTENDS Resolution

Pkgs(W) == 1..W.n
Installed(W, st) == { p \in Pkgs(W) : st.v[p] > 0 }
AllOn(W) == [p \in Pkgs(W) |-> [i \in 1..Len(W.vers[p]) |-> FALSE]]
Prob(W, root, over, bad) == [n |-> W.n, vers |-> W.vers, deps |-> W.deps, bad |-> bad, root |-> root, over |-> over]

\* the packages of a sequence of pool indexes, and what the user asked for before
Asked(W, d) == { W.pool[i].q : i \in Ran(d) }
RECURSIVE Kept(_, _, _, _)
Kept(W, st, except, p) ==
    IF p > W.n THEN <<>>
    ELSE (IF st.r[p] > 0 /\ p \notin except THEN <<W.pool[st.r[p]]>> ELSE <<>>) \o Kept(W, st, except, p + 1)
Root(W, d) == [i \in 1..Len(d) |-> W.pool[d[i]]]
OldRequests(W, st) == Kept(W, st, {}, 1)
AllRequests(W, st, op) == Root(W, op.d) \o Kept(W, st, Asked(W, op.d), 1)

Works(W, root, over, v) == Consistent(Prob(W, root, over, AllOn(W)), v)
WellFormed(W, st) == Works(W, OldRequests(W, st), <<>>, st.v)
\* what is needed of the site as it is (whatever the versions)
Reach(W, root, over, v) == { p \in Needed(Prob(W, root, over, AllOn(W)), v) : v[p] > 0 }

Seg(v, i) == IF i <= Len(v.r) THEN v.r[i] ELSE 0
SameMinor(a, b) == a.e = b.e /\ Seg(a, 1) = Seg(b, 1) /\ Seg(a, 2) = Seg(b, 2)
\* newest minor line among the versions the repository has
InTopMinor(W, off, p, i) ==
    LET on == { j \in 1..Len(W.vers[p]) : ~off[p][j] }
        top == CHOOSE j \in on : \A k \in on : ~Less(W.vers[p][j], W.vers[p][k])
    IN on = {} \/ SameMinor(W.vers[p][i], W.vers[p][top]) \/ ~Less(W.vers[p][i], W.vers[p][top])

Unspecified(W, op) == { W.pool[i].q : i \in { j \in Ran(op.d) : W.pool[j].s.k = "all" } }
Updated(W, st, op) == { p \in Ran(op.up) : st.v[p] > 0 }
\* only adding: what is installed and not to be updated stays at its version
Adding(W, st, op) ==
    Prob(W, IF Updated(W, st, op) # {} THEN AllRequests(W, st, op) ELSE Root(W, op.d), op.over,
         [p \in Pkgs(W) |-> [i \in 1..Len(W.vers[p]) |->
            IF st.v[p] > 0 /\ p \notin Ran(op.up) THEN i # st.v[p]
            ELSE op.off[p][i] \/ (p \in Unspecified(W, op) /\ ~InTopMinor(W, op.off, p, i))]])
Changing(W, st, op) == Prob(W, AllRequests(W, st, op), op.over, op.off)
AddingPossible(W, st, op) == Solvable(Adding(W, st, op))
ChangingPossible(W, st, op) == Solvable(Changing(W, st, op))

\* the choice that keeps every installed version, and takes the best one of every other package
KeepFirst(W, P, st) ==
    LET f == [p \in Pkgs(W) |->
                 LET ok == { i \in 1..Len(P.vers[p]) :
                               ~P.bad[p][i] /\ \A t \in RootRequests(P) : t.q = p => In(t.s, P.vers[p][i]) }
                 IN IF st.v[p] \in ok THEN st.v[p]
                    ELSE IF ok = {} THEN 0 ELSE CHOOSE i \in ok : \A j \in ok : i <= j]
        need == Needed(P, f)
    IN [p \in Pkgs(W) |-> IF p \in need THEN f[p] ELSE 0]

\* ---- installation: the clause that is broken, or "ok"
FlagsAfter(W, st, op, v2) ==
    [p \in Pkgs(W) |-> IF v2[p] = 0 THEN 0
                       ELSE IF op.user /\ p \in Asked(W, op.d)
                            THEN CHOOSE i \in Ran(op.d) : W.pool[i].q = p
                            ELSE st.r[p]]
Install(W, st, op, st2) ==
    LET v == st.v  v2 == st2.v
        add == Adding(W, st, op)  all == AllRequests(W, st, op)
        adding == AddingPossible(W, st, op)
        best == Preferred(add)
        keep == KeepFirst(W, Changing(W, st, op), [v |-> [p \in Pkgs(W) |-> IF p \in Ran(op.up) THEN 0 ELSE st.v[p]]])
    IN IF \E p \in Pkgs(W) : v2[p] < 0 THEN "unknown-version-installed"
       ELSE IF \E p \in Pkgs(W) : v2[p] > 0 /\ v2[p] # v[p] /\ op.off[p][v2[p]] THEN "unavailable-version-installed"
       ELSE IF ~Works(W, Root(W, op.d), op.over, v2) THEN "new-request-not-satisfied"
       ELSE IF Works(W, OldRequests(W, st), op.over, v) /\ ~Works(W, all, op.over, v2) THEN "earlier-request-broken"
       ELSE IF \E p \in Pkgs(W) : v2[p] > 0 /\ v2[p] # v[p] /\ p \notin Needed(Prob(W, all, op.over, AllOn(W)), v2)
            THEN "unneeded-package-installed"
       ELSE IF \E p \in Pkgs(W) : v[p] > 0 /\ v2[p] = 0 /\ p \in Reach(W, all, op.over, [v2 EXCEPT ![p] = v[p]])
            THEN "needed-package-removed"
       ELSE IF adding /\ \E p \in Pkgs(W) : v[p] > 0 /\ p \notin Ran(op.up) /\ v2[p] # v[p]
            THEN "installed-package-changed-without-need"
       ELSE IF adding /\ \E p \in Pkgs(W) : v[p] > 0 /\ v2[p] = 0 THEN "installed-package-removed-without-need"
       ELSE IF adding /\ Consistent(add, best)
               /\ \E p \in Pkgs(W) : v2[p] # (IF best[p] > 0 THEN best[p] ELSE v[p])
            THEN "best-versions-not-chosen"
       ELSE IF ~adding /\ Consistent(Changing(W, st, op), keep) /\ \E p \in Pkgs(W) : keep[p] > 0 /\ v2[p] # keep[p]
            THEN "working-version-changed-without-need"
       ELSE IF st2.r # FlagsAfter(W, st, op, v2) THEN "wrong-user-requests"
       ELSE "ok"
Refused(W, st, op, st2) ==
    IF st2 # st THEN "refused-installation-changed-the-site"
    ELSE IF AddingPossible(W, st, op) \/ ChangingPossible(W, st, op) THEN "possible-installation-refused"
    ELSE "ok"

\* ---- removal
\* packages that nothing asked for already before
Orphans(W, st) == Installed(W, st) \ Reach(W, OldRequests(W, st), <<>>, st.v)
Uninstall(W, st, op, st2, ret) ==
    LET u == Ran(op.u)
        need == Reach(W, Kept(W, st, u, 1), <<>>, st.v)
        gone == { p \in Installed(W, st) : st2.v[p] = 0 }
    IN IF \E p \in Pkgs(W) : st2.v[p] # 0 /\ st2.v[p] # st.v[p] THEN "uninstall-changed-a-version"
       ELSE IF gone \cap need # {} THEN "needed-package-removed"
       ELSE IF \E p \in (u \cap Installed(W, st)) \ need : st2.v[p] # 0 THEN "package-not-removed"
       ELSE IF \E p \in (Installed(W, st) \ need) \ Orphans(W, st) : st2.v[p] # 0 THEN "orphan-left-behind"
       ELSE IF \E p \in Pkgs(W) : st2.v[p] > 0 /\ st2.r[p] # (IF p \in u THEN 0 ELSE st.r[p]) THEN "wrong-user-requests"
       ELSE IF Ran(ret) # u \cap gone THEN "wrong-removal-report"
       ELSE "ok"
Remove(W, st, op, st2, ret) ==
    LET p == op.u[1] IN
    IF st2 # [v |-> [st.v EXCEPT ![p] = 0], r |-> [st.r EXCEPT ![p] = 0]] THEN "forced-removal-touched-more"
    ELSE IF (ret # <<>>) # (st.v[p] > 0) THEN "wrong-removal-report"
    ELSE "ok"

\* ---- queries; all dependencies, applicable or not
RECURSIVE AnyReach(_, _, _, _)
AnyReach(W, v, done, todo) ==
    IF todo = {} THEN done
    ELSE LET p == CHOOSE p \in todo : TRUE
             more == { d.q : d \in Ran(W.deps[p][v[p]]) } IN
         AnyReach(W, v, done \cup {p}, (todo \cup { q \in more : v[q] > 0 }) \ (done \cup {p}))
OrphansAnswer(W, st, ans) ==
    LET A == Ran(ans) IN
    IF \E p \in A : st.v[p] = 0 \/ p \in Reach(W, OldRequests(W, st), <<>>, st.v) THEN "needed-package-reported-orphan"
    ELSE IF \E p \in Installed(W, st) \ AnyReach(W, st.v, {}, { q \in Pkgs(W) : st.r[q] > 0 }) : p \notin A
         THEN "orphan-not-reported"
    ELSE "ok"
=============================================================================
