---------------------------------- MODULE Envs ----------------------------------
(* The environments a user keeps in a directory (a zoo), what is in them, and what using them does to the process that uses them.

   A world is a record
     d    what there is below each name: "none", "plain" (a directory that is no environment), "file", "half" (a directory with a
          configuration of an environment, but without an interpreter) or "env"
     py   the version of the interpreter of each environment (0: none, Real: the one that runs pkm)
     pk   the installed version of each package in each environment (0: not installed)
     bin  for every script the environment it was exported from (0: not exported)
     path what the variable PATH was when pkm was started: "unset", "empty" or "set", venv the same for VIRTUAL_ENV
     act  the activations that are open, the last one is the innermost: k is "env" (then e tells which) or "zoo"
     pys  the versions of the interpreters that are installed, always with Real

   Packages have the versions 1 and 2, a version has the scripts Scripts[p][v].  *)
EXTENDS Integers, Sequences, FiniteSets

Real == 5
Scripts == << << {1, 2}, {1} >>, << {3}, {3, 4} >> >>
NScripts == 4
Owner(s) == IF s <= 2 THEN 1 ELSE 2

IsEnv(w, e) == w.d[e] = "env"
Usable(w, e) == IsEnv(w, e) /\ w.py[e] = Real
\* the scripts that work in an environment
Has(w, e, s) == LET v == w.pk[e][Owner(s)] IN Usable(w, e) /\ v > 0 /\ s \in Scripts[Owner(s)][v]

Listed(w) == {e \in DOMAIN w.d : IsEnv(w, e)}
Allowed(w, sp) == {v \in w.pys : v >= sp.lo /\ v <= sp.hi /\ \A i \in 1..Len(sp.no) : sp.no[i] # v}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Decreasing(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : i < j => q[i] > q[j]

Empty == [p \in 1..2 |-> 0]
Made(w, e, py) == [w EXCEPT !.d[e] = "env", !.py[e] = py, !.pk[e] = Empty]

\* ---------------------------------------------------------------- activations
Venv(w) == LET es == {i \in DOMAIN w.act : w.act[i].k = "env"} IN IF es = {} THEN 0 ELSE w.act[Max(es)].e
\* the directories in PATH, before those it had: 0 is the one of exported scripts
Places(w) == [i \in 1..Len(w.act) |-> LET a == w.act[Len(w.act) + 1 - i] IN IF a.k = "env" THEN a.e ELSE 0]

\* ---------------------------------------------------------------- commands
\* what a command finds in a place: "none", "broken" or <<the environment it runs in>>
Found(w, at, s) ==
    IF at > 0
    THEN (IF Has(w, at, s) THEN at ELSE -1)
    ELSE LET e == w.bin[s] IN IF e = 0 \/ ~Usable(w, e) THEN -1 ELSE IF Has(w, e, s) THEN e ELSE -2
Dead(w, at, s) == at = 0 /\ w.bin[s] # 0 /\ ~Usable(w, w.bin[s])
\* scripts whose environment is gone are passed over or end the search, as the system likes
RECURSIVE Look(_, _, _)
Look(w, places, s) ==
    IF places = <<>> THEN {-1}
    ELSE LET f == Found(w, places[1], s)
         IN IF f # -1 THEN {f} ELSE Look(w, Tail(places), s) \cup (IF Dead(w, places[1], s) THEN {-1} ELSE {})
Ran(w, places, s) ==
    { IF f = -1 THEN [out |-> "missing", e |-> 0, v |-> 0]
      ELSE IF f = -2 THEN [out |-> "broken", e |-> 0, v |-> 0]
      ELSE [out |-> "ok", e |-> f, v |-> w.pk[f][Owner(s)]] : f \in Look(w, places, s) }

\* ---------------------------------------------------------------- operations
\* the result of an operation: whether it succeeds ("ok" or "error"), the world after it, and what it may change on disk
\* (an environment, 0: the exported scripts)
Res(out, w, may) == [out |-> out, w |-> w, may |-> may]
Fails(w) == Res("error", w, {})
Exportable(w, e) == {s \in 1..NScripts : Has(w, e, s)}

Do(w, o) ==
    CASE o.k = "create" ->
           IF w.d[o.e] # "none" \/ o.how = "broken" THEN Fails(w)
           ELSE IF o.how = "build" THEN Res("ok", Made(w, o.e, Real), {o.e})
           ELSE IF Allowed(w, o.spec) = {} THEN Fails(w)
           ELSE Res("ok", Made(w, o.e, Max(Allowed(w, o.spec))), {o.e})
      [] o.k = "put" -> Res("ok", IF o.how = "std" THEN Made(w, o.e, Real) ELSE [w EXCEPT !.d[o.e] = o.how], {o.e})
      [] o.k = "delete" -> IF IsEnv(w, o.e) THEN Res("ok", [w EXCEPT !.d[o.e] = "none", !.py[o.e] = 0, !.pk[o.e] = Empty], {o.e}) ELSE Fails(w)
      [] o.k = "odd" -> Fails(w)
      [] o.k = "load" -> IF IsEnv(w, o.e) THEN Res("ok", w, {}) ELSE Fails(w)
      [] o.k = "install" -> Res("ok", [w EXCEPT !.pk[o.e][o.p] = o.v], {o.e})
      [] o.k = "remove" -> Res("ok", [w EXCEPT !.pk[o.e][o.p] = 0], {o.e})
      [] o.k = "export" -> IF IsEnv(w, o.e) /\ Has(w, o.e, o.s) THEN Res("ok", [w EXCEPT !.bin[o.s] = o.e], {0}) ELSE Fails(w)
      [] o.k = "exportall" ->
           IF IsEnv(w, o.e) /\ w.pk[o.e][o.p] > 0
           THEN Res("ok", [w EXCEPT !.bin = [s \in 1..NScripts |-> IF s \in Scripts[o.p][w.pk[o.e][o.p]] THEN o.e ELSE w.bin[s]]], {0})
           ELSE Fails(w)
      [] o.k = "tidy" -> Res("ok", [w EXCEPT !.bin = [s \in 1..NScripts |-> 0]], {0})
      [] o.k = "enter" -> IF o.what = "env" /\ ~IsEnv(w, o.e) THEN Fails(w) ELSE Res("ok", [w EXCEPT !.act = Append(@, [k |-> o.what, e |-> o.e])], {})
      [] o.k = "leave" -> Res("ok", [w EXCEPT !.act = SubSeq(@, 1, Len(@) - 1)], {})
      [] OTHER -> Res("ok", w, {})

\* when an operation makes sense (others are left out of the histories)
Makes(w, o) ==
    CASE o.k = "put" -> w.d[o.e] = "none"
      [] o.k = "delete" -> w.d[o.e] # "half"
      [] o.k \in {"install", "run", "exec"} -> Usable(w, o.e)
      [] o.k = "remove" -> Usable(w, o.e) /\ w.pk[o.e][o.p] > 0
      [] o.k = "enter" -> o.what = "zoo" \/ ~IsEnv(w, o.e) \/ Usable(w, o.e)
      [] o.k \in {"export", "exportall"} -> ~IsEnv(w, o.e) \/ Usable(w, o.e)
      [] o.k = "leave" -> w.act # <<>>
      [] OTHER -> TRUE

\* ---------------------------------------------------------------- what is observed
\* o.got: the answer of the operation; after.*: what a look at the disk and at the variables finds after it
SeqSet(q) == {q[i] : i \in DOMAIN q}
State(w, a) ==
    IF \E e \in DOMAIN w.d : a.d[e] # w.d[e] THEN "directories"
    ELSE IF SeqSet(a.list) # Listed(w) \/ Len(a.list) # Cardinality(Listed(w)) THEN "listing"
    ELSE IF \E e \in DOMAIN w.d : IsEnv(w, e) /\ a.py[e] # w.py[e] THEN "interpreter"
    ELSE IF \E e \in DOMAIN w.d : Usable(w, e) /\ \E p \in 1..2 : a.pk[e][p] # w.pk[e][p] THEN "packages"
    ELSE IF \E s \in 1..NScripts : a.bin[s] # w.bin[s] THEN "exported"
    ELSE IF a.path # (IF w.act # <<>> THEN "set" ELSE w.path) \/ a.places # Places(w) THEN "path"
    ELSE IF a.venv # (IF Venv(w) # 0 THEN "env" ELSE w.venv) \/ a.active # Venv(w) THEN "virtual-env"
    ELSE "ok"

Answer(w, o) ==
    CASE o.k = "create" /\ o.got = "ok" -> IF o.isolated THEN "ok" ELSE "not-isolated"
      [] o.k = "load" /\ o.got = "ok" -> IF o.loaded = o.e THEN "ok" ELSE "wrong-environment"
      [] o.k = "pythons" -> IF o.found = Decreasing(Allowed(w, o.spec)) THEN "ok" ELSE "interpreters"
      [] o.k \in {"run", "exec"} ->
           IF o.ran \notin Ran(w, <<o.e>> \o (IF o.env = "inherit" THEN Places(w) ELSE <<>>), o.s) THEN "command"
           ELSE IF o.ran.out = "ok" /\ o.saw # o.env THEN "variables" ELSE "ok"
      [] o.k = "call" -> IF o.ran \notin Ran(w, <<0>>, o.s) THEN "exported-command" ELSE "ok"
      [] OTHER -> "ok"

Step(w, o) ==
    LET r == Do(w, o)
    IN IF ~Makes(w, o) THEN "MACHINERY"
       ELSE IF o.got = "machinery" THEN "MACHINERY"
       ELSE IF o.got # r.out THEN (IF o.got = "ok" THEN "accepted" ELSE "refused")
       ELSE IF ~(SeqSet(o.changed) \subseteq r.may) THEN "changed-other"
       ELSE LET a == Answer(w, o) IN IF a # "ok" THEN a ELSE State(r.w, o.after)

RECURSIVE Judge(_, _, _)
Judge(w, ops, i) ==
    IF i > Len(ops) THEN "ok"
    ELSE LET v == Step(w, ops[i]) IN IF v # "ok" THEN (IF v = "MACHINERY" THEN v ELSE v \o " " \o ops[i].k) ELSE Judge(Do(w, ops[i]).w, ops, i + 1)

World(h) == [d |-> [e \in 1..h.n |-> "none"], py |-> [e \in 1..h.n |-> 0], pk |-> [e \in 1..h.n |-> Empty], bin |-> [s \in 1..NScripts |-> 0],
             path |-> h.path, venv |-> h.venv, act |-> <<>>, pys |-> {Real} \cup SeqSet(h.pys)]
EnvsVerdict(h) == Judge(World(h), h.ops, 1)
=============================================================================
