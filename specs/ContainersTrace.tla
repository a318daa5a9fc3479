----------------------------- MODULE ContainersTrace -----------------------------
EXTENDS Containers, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, judged

Pk(names, s) == [n \in names |-> IF \E i \in 1..Len(s) : s[i].n = n THEN s[CHOOSE i \in 1..Len(s) : s[i].n = n].v ELSE 0]
RECURSIVE First(_)
First(vs) == IF vs = <<>> THEN "ok" ELSE IF Head(vs) # "ok" THEN Head(vs) ELSE First(Tail(vs))

\* a program of package n, version v, that was run in app ("": the environment)
\* (projects, links: applications that were projects have no data)
RunVerdict(w, run, n, v, app, links) ==
    IF run.n # n \/ run.v # v THEN "runs-another-program"
    ELSE IF \E j \in 1..Len(run.sees) : run.sees[j].v # Sees(w, app, run.sees[j].n) THEN IF app = "" THEN "environment-sees-container" ELSE "container-sees-environment"
    ELSE IF run.data # <<v>> /\ ~(n \in links /\ run.data = <<>>) THEN "finds-other-data"
    ELSE IF run.code # 10 + v THEN "exit-status"
    ELSE "ok"

\* a look at the environment: what is listed, what is on the disk, what runs
LookVerdict(r, w, a) ==
    LET repo == r.repo  names == Rng(r.names)
        listed == {a.apps[i].app : i \in 1..Len(a.apps)}
        scripts == Scripts(repo, w)
        links == {r.ops[i].q.n : i \in {i \in 1..Len(r.ops) : r.ops[i].form = "project"}}
    IN IF Cardinality(listed) # Len(a.apps) \/ listed # {x \in DOMAIN w.apps : There(w, x)} THEN "listed-containers"
       ELSE IF \E i \in 1..Len(a.apps) : a.apps[i].version # w.apps[a.apps[i].app].pk[a.apps[i].app] THEN "listed-version"
       ELSE IF \E i \in 1..Len(a.apps) : Rng(a.apps[i].plugins) # Plugins(w, a.apps[i].app) THEN "listed-plugins"
       ELSE IF a.stray # <<>> THEN "left-behind"
       ELSE IF a.lost # <<>> THEN "recorded-but-missing"
       ELSE IF \E i \in 1..Len(a.apps) : Rng(a.apps[i].bin) # {x.s : x \in Inner(repo, w, a.apps[i].app)} THEN "inner-scripts"
       ELSE IF Rng(a.bin) # {x.s : x \in scripts} THEN "scripts"
       ELSE First([i \in 1..Len(a.runs) |->
                LET run == a.runs[i]  x == CHOOSE y \in scripts : y.s = run.s IN RunVerdict(w, run, x.n, x.v, x.app, links)]
            \o [i \in 1..Len(a.nested) |->
                LET run == a.nested[i]  x == CHOOSE y \in Inner(repo, w, run.app) : y.s = run.s IN RunVerdict(w, run, x.n, x.v, run.app, links)])

StepVerdict(r, w, o, b, a) ==
    LET repo == r.repo  names == Rng(r.names)
        site(x, app) == IF app = "" THEN Pk(names, x.main) ELSE LET at == {i \in 1..Len(x.apps) : x.apps[i].app = app} IN IF at = {} THEN Nothing(names) ELSE Pk(names, x.apps[CHOOSE i \in at : TRUE].pk)
        pk == site(a, o.app)
        others == {x \in DOMAIN w.apps : x # o.app} \cup (IF o.app = "" THEN {} ELSE {""})
        digest(x, app) == LET at == {i \in 1..Len(x.digests) : x.digests[i].app = app} IN IF at = {} THEN "" ELSE x.digests[CHOOSE i \in at : TRUE].d
    IN IF (a.out = "ok") # Succeeds(repo, names, w, o) THEN IF a.out = "ok" THEN "succeeds-without-solution" ELSE "fails-without-reason"
       ELSE IF a.out # "ok" /\ a.all # b.all THEN "failure-changes-something"
       ELSE IF a.out # "ok" THEN "ok"
       ELSE IF SiteVerdict(repo, names, w, o, pk) # "ok" THEN SiteVerdict(repo, names, w, o, pk)
       ELSE IF \E x \in others : digest(a, x) # digest(b, x) THEN "another-site-changes"
       ELSE LookVerdict(r, After(repo, w, o, pk), a)
RECURSIVE Judge(_, _, _, _, _)
Judge(r, w, ops, before, obs) ==
    IF ops = <<>> THEN "ok"
    ELSE IF ~Sensible(w, Head(ops)) THEN Judge(r, w, Tail(ops), before, Tail(obs))
    ELSE LET o == Head(ops)  a == Head(obs)  v == StepVerdict(r, w, o, before, a)
             names == Rng(r.names)
             at == {i \in 1..Len(a.apps) : a.apps[i].app = o.app}
             pk == IF o.app = "" THEN Pk(names, a.main) ELSE IF at = {} THEN Nothing(names) ELSE Pk(names, a.apps[CHOOSE i \in at : TRUE].pk)
         IN IF v # "ok" THEN v ELSE Judge(r, IF a.out = "ok" THEN After(r.repo, w, o, pk) ELSE w, Tail(ops), a, Tail(obs))
Verdict(r) == IF r.broken # "" THEN "MACHINERY"
              ELSE Judge(r, World0(Rng(r.names), Rng(r.apps)), r.ops, r.start, r.obs)

Init == l \in 1..Len(Trace) /\ judged = FALSE
Next == /\ ~judged /\ judged' = TRUE /\ UNCHANGED l
        /\ LET v == Verdict(Trace[l]) IN v = "ok" \/ PrintT(<<"BAD", l, v>>)
Judged == TRUE
=============================================================================
