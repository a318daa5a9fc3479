--------------------------------- MODULE EnvsMC ---------------------------------
(* laws of environments on every short history of two of them; the histories are exported for replaying *)
EXTENDS Envs, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
Any1 == [lo |-> 1, hi |-> 7, no |-> <<>>]
No == [k |-> "", e |-> 1, p |-> 1, v |-> 1, s |-> 1, how |-> "", what |-> "", env |-> "", spec |-> Any1]
VARIABLES w, ops
W0(path) == [World([n |-> 2, path |-> path, venv |-> "unset", pys |-> <<>>]) EXCEPT !.d[1] = "none"]
\* histories begin with an environment that has a package
Start == << [No EXCEPT !.k = "create", !.how = "build"], [No EXCEPT !.k = "install"] >>
Init == \E path \in {"unset", "set"} : /\ w = Do(Do(W0(path), Start[1]).w, Start[2]).w /\ ops = Start
Alphabet ==
    {[No EXCEPT !.k = "create", !.e = e, !.how = "build"] : e \in 1..2}
    \cup {[No EXCEPT !.k = "put", !.e = 2, !.how = h] : h \in {"plain", "std"}}
    \cup {[No EXCEPT !.k = k, !.e = e] : k \in {"delete"}, e \in 1..2}
    \cup {[No EXCEPT !.k = "install", !.e = e, !.v = v] : e \in 1..2, v \in 1..2}
    \cup {[No EXCEPT !.k = "install", !.e = 1, !.p = 2, !.v = 2]}
    \cup {[No EXCEPT !.k = k, !.e = e] : k \in {"remove", "exportall"}, e \in 1..2}
    \cup {[No EXCEPT !.k = "export", !.e = e, !.s = s] : e \in 1..2, s \in {1, 2}}
    \cup {[No EXCEPT !.k = "enter", !.e = e, !.what = "env"] : e \in 1..2} \cup {[No EXCEPT !.k = "enter", !.what = "zoo"]}
    \cup {[No EXCEPT !.k = "leave", !.how = h] : h \in {"normal", "raise"}}
    \cup {[No EXCEPT !.k = "run", !.e = e, !.s = s, !.env = "inherit"] : e \in 1..2, s \in {1, 2}}
    \cup {[No EXCEPT !.k = "call", !.s = s] : s \in {1, 2}}
    \cup {[No EXCEPT !.k = "restart"], [No EXCEPT !.k = "tidy"]}
Next == Len(ops) < Depth + 2 /\ \E o \in Alphabet : Makes(w, o) /\ w' = Do(w, o).w /\ ops' = Append(ops, o)
Spec == Init /\ [][Next]_<<w, ops>>
Last == ops'[Len(ops')]
\* what is below a name that is no environment has no packages, and only environments are active when they are entered
Sound == /\ \A e \in 1..2 : ~IsEnv(w, e) => w.pk[e] = Empty /\ w.py[e] = 0
         /\ Listed(w) = {e \in 1..2 : w.d[e] = "env"}
         /\ (w.act = <<>> => Places(w) = <<>> /\ Venv(w) = 0)
\* a command runs in the environment it was asked for if that has it, else in the innermost active place that has it
Runs == \A e \in 1..2, s \in 1..NScripts :
          Usable(w, e) => \A r \in Ran(w, <<e>> \o Places(w), s) :
                             /\ (Has(w, e, s) => r.e = e /\ r.v = w.pk[e][Owner(s)])
                             /\ (r.out = "ok" => Has(w, r.e, s))
                             /\ (w.act = <<>> /\ ~Has(w, e, s) => r.out = "missing")
Failing == [][Do(w, Last).out = "error" => w' = w]_<<w, ops>>
\* operations on one environment leave the others as they are
Others == [][\A e \in 1..2 : (e # Last.e \/ Last.k \notin {"create", "put", "delete", "install", "remove"}) => w'.d[e] = w.d[e] /\ w'.pk[e] = w.pk[e]]_<<w, ops>>
\* directories that are no environments stay, scripts stay exported until another takes their place
Kept == [][/\ \A e \in 1..2 : w.d[e] \in {"plain", "file", "half"} => w'.d[e] = w.d[e]
           /\ \A s \in 1..NScripts : (w.bin[s] # 0 /\ Last.k # "tidy") => w'.bin[s] # 0]_<<w, ops>>
\* leaving undoes entering
Nested == [][/\ w'.path = w.path /\ w'.venv = w.venv
             /\ (Last.k = "enter" /\ Do(w, Last).out = "ok" => SubSeq(w'.act, 1, Len(w.act)) = w.act)
             /\ (Last.k = "leave" => w'.act = SubSeq(w.act, 1, Len(w.act) - 1))
             /\ (Last.k \notin {"enter", "leave"} => w'.act = w.act)]_<<w, ops>>
Export == Len(ops) # Depth + 2 \/ PrintT(<<"ST", ToJson([path |-> w.path, ops |-> ops])>>)
=============================================================================
