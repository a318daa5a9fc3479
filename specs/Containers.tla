------------------------------- MODULE Containers -------------------------------
(***************************************************************************)
(* Applications in containers: an environment has packages of its own and  *)
(* containers; a container has one application, the plugins that were      *)
(* added to it and whatever they need.  Each is a site for itself: what is *)
(* done to one does not change another, what is run in a container sees    *)
(* the packages of the container before those of the environment, what is  *)
(* run in the environment sees only the environment.                       *)
(*                                                                         *)
(* A package is [n, v, deps, scripts, mods]; a requirement is [n, lo, hi]. *)
(* A site is a function from names to versions, 0: not installed; with     *)
(* requests: a set of requirements.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
Meets(site, q) == site[q.n] # 0 /\ q.lo <= site[q.n] /\ site[q.n] <= q.hi
Versions(repo, n) == {repo[i].v : i \in {j \in 1..Len(repo) : repo[j].n = n}}
Has(repo, n, v) == \E i \in 1..Len(repo) : repo[i].n = n /\ repo[i].v = v
The(repo, n, v) == repo[CHOOSE i \in 1..Len(repo) : repo[i].n = n /\ repo[i].v = v]
Installed(site) == {n \in DOMAIN site : site[n] # 0}
Deps(repo, site, n) == Rng(The(repo, n, site[n]).deps)

\* every request and every dependency is there
Consistent(repo, site, reqs) ==
    /\ \A n \in Installed(site) : Has(repo, n, site[n])
    /\ \A q \in reqs : Meets(site, q)
    /\ \A n \in Installed(site) : \A q \in Deps(repo, site, n) : Meets(site, q)
RECURSIVE Reach(_, _, _)
Reach(repo, site, ns) ==
    LET more == ns \cup {q.n : q \in UNION {Deps(repo, site, n) : n \in ns \cap Installed(site)}}
    IN IF more = ns THEN ns ELSE Reach(repo, site, more)
Needed(repo, site, reqs) == Reach(repo, site, {q.n : q \in reqs})

\* depth first: is there a site for these requirements (todo), with what is chosen so far?
RECURSIVE Solves(_, _, _)
Solves(repo, site, todo) ==
    IF todo = {} THEN TRUE
    ELSE LET q == CHOOSE x \in todo : TRUE IN
         IF site[q.n] # 0 THEN Meets(site, q) /\ Solves(repo, site, todo \ {q})
         ELSE \E v \in Versions(repo, q.n) : q.lo <= v /\ v <= q.hi
                  /\ Solves(repo, [site EXCEPT ![q.n] = v], (todo \ {q}) \cup Rng(The(repo, q.n, v).deps))
Nothing(names) == [n \in names |-> 0]
Solvable(repo, names, reqs) == Solves(repo, Nothing(names), reqs)

-----------------------------------------------------------------------------
(* the world: the environment's own site, and a site for every application *)
\* shown: the scripts of the application when it was put there (adding plugins may change its version, but not its scripts)
Site(names) == [pk |-> Nothing(names), reqs |-> {}, shown |-> {}]
World0(names, apps) == [main |-> Site(names), apps |-> [a \in apps |-> Site(names)]]
There(w, a) == w.apps[a].reqs # {}
With(reqs, q) == {x \in reqs : x.n # q.n} \cup {q}

\* the site that an operation changes: "main" or an application
Where(o) == IF o.app = "" THEN "main" ELSE o.app
SiteOf(w, o) == IF o.app = "" THEN w.main ELSE w.apps[o.app]
Put(w, o, s) == IF o.app = "" THEN [w EXCEPT !.main = s] ELSE [w EXCEPT !.apps[o.app] = s]

(* operations [k, app, q, update]:                                          *)
(*  app     the application q.n is put into its container                   *)
(*  add     q is installed into the environment (app = "") or into a        *)
(*          container                                                       *)
(*  drop    q.n is uninstalled from the environment or the container        *)
(*  remove  the container is uninstalled                                    *)
Sensible(w, o) ==
    CASE o.k = "app" -> TRUE
      [] o.k = "add" -> (IF o.app = "" THEN TRUE ELSE There(w, o.app) /\ o.q.n # o.app)
      [] o.k = "drop" -> \E x \in SiteOf(w, o).reqs : x.n = o.q.n /\ o.q.n # o.app
      [] o.k = "remove" -> There(w, o.app)
\* an application that is there and good enough is left alone
Keeps(w, o) == o.k = "app" /\ ~o.update /\ There(w, o.app) /\ Meets(w.apps[o.app].pk, o.q)
Requests(w, o) ==
    IF Keeps(w, o) \/ o.k = "remove" THEN SiteOf(w, o).reqs
    ELSE IF o.k = "drop" THEN {x \in SiteOf(w, o).reqs : x.n # o.q.n}
    ELSE With(SiteOf(w, o).reqs, o.q)
Succeeds(repo, names, w, o) == o.k \in {"drop", "remove"} \/ Keeps(w, o) \/ Solvable(repo, names, Requests(w, o))

\* whether the packages of the site that it works on may be pk afterwards
SiteVerdict(repo, names, w, o, pk) ==
    LET before == SiteOf(w, o).pk
        reqs == Requests(w, o)
    IN IF Keeps(w, o) THEN IF pk = before THEN "ok" ELSE "changed-without-need"
       ELSE IF o.k = "remove" THEN IF Installed(pk) = {} THEN "ok" ELSE "not-removed"
       ELSE IF ~Consistent(repo, pk, reqs) THEN "site-is-broken"
       ELSE IF o.k = "drop" THEN IF Installed(pk) # Needed(repo, before, reqs) THEN "drops-what-is-not-needed"
                                 ELSE IF \E n \in Installed(pk) : pk[n] # before[n] THEN "changed-without-need" ELSE "ok"
       ELSE IF \E n \in Installed(pk) \ Installed(before) : n \notin Needed(repo, pk, reqs) THEN "installs-what-is-not-needed"
       ELSE "ok"
After(repo, w, o, pk) ==
    Put(w, o, IF o.k = "remove" THEN [pk |-> pk, reqs |-> {}, shown |-> {}]
              ELSE [pk |-> pk, reqs |-> Requests(w, o), shown |-> IF o.k = "app" /\ ~Keeps(w, o) THEN Rng(The(repo, o.app, pk[o.app]).scripts) ELSE SiteOf(w, o).shown])

-----------------------------------------------------------------------------
(* what the user sees *)
\* scripts on the path: [s, n (the package), v, app]
Scripts(repo, w) ==
    UNION {{[s |-> s, n |-> n, v |-> w.main.pk[n], app |-> ""] : s \in Rng(The(repo, n, w.main.pk[n]).scripts)} : n \in Installed(w.main.pk)}
    \cup UNION {{[s |-> s, n |-> a, v |-> w.apps[a].pk[a], app |-> a] : s \in w.apps[a].shown} : a \in {a \in DOMAIN w.apps : There(w, a)}}
\* scripts that programs of a container find first
Inner(repo, w, a) == UNION {{[s |-> s, n |-> n, v |-> w.apps[a].pk[n]] : s \in Rng(The(repo, n, w.apps[a].pk[n]).scripts)} : n \in Installed(w.apps[a].pk)}
\* which version of a package is imported there
Sees(w, app, n) == IF app # "" /\ w.apps[app].pk[n] # 0 THEN w.apps[app].pk[n] ELSE w.main.pk[n]
Plugins(w, a) == {q.n : q \in w.apps[a].reqs} \ {a}
=============================================================================
