------------------------------ MODULE ContainersMC ------------------------------
(* two applications, a plugin, a library and a package of the environment: all histories; exported for replaying *)
EXTENDS Containers, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Q(n, lo, hi) == [n |-> n, lo |-> lo, hi |-> hi]
P(n, v, deps, scripts) == [n |-> n, v |-> v, deps |-> deps, scripts |-> scripts]
Repo == << P("app", 1, <<Q("lib", 1, 1)>>, <<"run">>), P("app", 2, <<Q("lib", 1, 2)>>, <<"run", "run-more">>),
           P("bpp", 1, <<Q("lib", 2, 2)>>, <<"brun">>), P("plug", 1, <<Q("app", 2, 3), Q("lib", 1, 1)>>, <<>>),
           P("lib", 1, <<>>, <<>>), P("lib", 2, <<>>, <<>>), P("own", 1, <<Q("lib", 2, 2)>>, <<"orun">>) >>
Names == {"app", "bpp", "plug", "lib", "own"}
AppNames == {"app", "bpp"}
Ops == {[k |-> "app", app |-> "app", q |-> q, update |-> u] : q \in {Q("app", 1, 9), Q("app", 1, 1), Q("app", 2, 2), Q("app", 7, 9)}, u \in BOOLEAN}
       \cup {[k |-> "app", app |-> "bpp", q |-> Q("bpp", 1, 9), update |-> FALSE]}
       \cup {[k |-> k, app |-> "app", q |-> Q("plug", 1, 9), update |-> FALSE] : k \in {"add", "drop"}}
       \cup {[k |-> k, app |-> "", q |-> q, update |-> FALSE] : q \in {Q("own", 1, 9), Q("lib", 1, 1)}, k \in {"add", "drop"}}
       \cup {[k |-> "remove", app |-> a, q |-> Q(a, 1, 9), update |-> FALSE] : a \in AppNames}
VARIABLES w, ops
Init == w = World0(Names, AppNames) /\ ops = <<>>
\* sites that differ from before in what is needed only
Sites(o) == {pk \in [Names -> 0..2] : SiteVerdict(Repo, Names, w, o, pk) = "ok" /\ \A n \in Names : pk[n] # 0 => (n \in Needed(Repo, pk, Requests(w, o)) \/ pk[n] = SiteOf(w, o).pk[n])}
Do(o) == /\ Sensible(w, o) /\ ops' = Append(ops, o)
         /\ IF Succeeds(Repo, Names, w, o) THEN \E pk \in Sites(o) : w' = After(Repo, w, o, pk) ELSE w' = w
Next == Len(ops) < Depth /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_<<w, ops>>
Sound == Consistent(Repo, w.main.pk, w.main.reqs) /\ \A a \in AppNames : Consistent(Repo, w.apps[a].pk, w.apps[a].reqs)
Gone == \A a \in AppNames : There(w, a) \/ Installed(w.apps[a].pk) = {}
\* an application sees what it requires, whatever is in the environment
Isolated == \A a \in AppNames : There(w, a) => \A n \in Installed(w.apps[a].pk) : \A q \in Deps(Repo, w.apps[a].pk, n) : q.lo <= Sees(w, a, q.n) /\ Sees(w, a, q.n) <= q.hi
OwnOnly == \A n \in Names : Sees(w, "", n) = w.main.pk[n]
\* no operation needs more than the site it works on; a solution is there whenever success is demanded
Possible == \A o \in Ops : (Sensible(w, o) /\ Len(ops) < Depth) => (Succeeds(Repo, Names, w, o) <=> Sites(o) # {})
Apart == [][\E o \in Ops : ops' = Append(ops, o) /\ (o.app # "" => w'.main = w.main) /\ \A a \in AppNames \ {o.app} : w'.apps[a] = w.apps[a]]_<<w, ops>>
OneScript == \A x, y \in Scripts(Repo, w) : x.s = y.s => x = y
Export == PrintT(<<"ST", ToJson([ops |-> ops])>>)
=============================================================================
