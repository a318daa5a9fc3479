------------------------------- MODULE LookupMC -------------------------------
(* laws of the lookup, on every configuration of a project, its environment  *)
(* and pkm that is reached by a few operations; exported for replaying       *)
EXTENDS Lookup, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
W == [content |-> << <<[p |-> 1, v |-> 1]>>, <<[p |-> 1, v |-> 3], [p |-> 1, v |-> 4], [p |-> 2, v |-> 1]>>, <<>> >>, group |-> FALSE, zoo |-> FALSE]
Ctx == {"proj", "env", "glob"}
All == {"proj", "env", "glob", "group", "zoo"}
Deps == { [p |-> p, v |-> v, url |-> ""] : p \in 1..2, v \in {0, 1} } \cup { [p |-> 1, v |-> 1, url |-> "file"] }
No == [k |-> "", ctx |-> "", n |-> "", c |-> 0, b |-> FALSE, p |-> 0]
Ops == { [No EXCEPT !.k = "add", !.ctx = x, !.n = n, !.c = c, !.b = b] : x \in Ctx, n \in {"r"}, c \in {1, 2}, b \in BOOLEAN }
       \cup { [No EXCEPT !.k = "add", !.ctx = "proj", !.n = "s", !.c = 2] }
       \cup { [No EXCEPT !.k = "remove", !.ctx = x, !.n = "r"] : x \in Ctx }
       \cup { [No EXCEPT !.k = "bind", !.ctx = x, !.n = n, !.c = 1, !.p = 1] : x \in {"proj", "env"}, n \in {"r", ""} }
       \cup { [No EXCEPT !.k = "unbind", !.ctx = x, !.p = 1] : x \in {"proj", "env"} }
VARIABLES cfg, ops, start
Init == /\ \E inh \in [Ctx -> {"context", "global", "none"}] :
               cfg = [x \in All |-> [repos |-> <<>>, inh |-> IF x \in Ctx THEN inh[x] ELSE "context", binds |-> <<>>]]
        /\ start = cfg /\ ops = <<>>
Next == \E o \in Ops : /\ Len(ops) < Depth
                       /\ (o.k = "bind" /\ o.n # "" => \E i \in 1..Len(cfg[o.ctx].repos) : cfg[o.ctx].repos[i].n = o.n)
                       /\ cfg' = After(W, cfg, o) /\ ops' = Append(ops, o) /\ UNCHANGED start
Spec == Init /\ [][Next]_<<cfg, ops, start>>
L(c, x, d) == Lookup(W, c, x, d)
\* what is found is in one repository, and that one is defined or bound somewhere in the chain
Sound == \A x \in Ctx, d \in Deps : LET e == L(cfg, x, d) IN
            e.vs # {} => \/ e.src = 200 /\ d.url = "file"
                         \/ \E y \in Elems(Chain(W, x)) : (\E r \in Elems(cfg[y].repos) : r.c = e.src) \/ (\E b \in Elems(cfg[y].binds) : b.n = "" /\ b.c = e.src)
\* bindings never refer to repositories that were removed
BindingsDefined == \A x \in Ctx : \A b \in Elems(cfg[x].binds) : b.n # "" => \E r \in Elems(cfg[x].repos) : r.n = b.n
\* a bound package never comes from elsewhere, and bind-only repositories provide nothing else
Bound == \A x \in Ctx, d \in Deps : d.url = "" => \A b \in Elems(cfg[x].binds) : b.p = d.p =>
            L(cfg, x, d) = Match(W, IF b.n = "" THEN b.c ELSE (CHOOSE r \in Elems(cfg[x].repos) : r.n = b.n).c, d)
BindOnly == \A x \in Ctx, d \in Deps :
              LET without == [y \in All |-> [cfg[y] EXCEPT !.repos = SelectSeq(@, LAMBDA r : ~r.b)]]
              IN (\A y \in Elems(Chain(W, x)) : \A b \in Elems(cfg[y].binds) : b.p # d.p) => L(cfg, x, d) = L(without, x, d)
\* a context that inherits nothing depends on nothing but itself
Isolated == \A x \in Ctx \ {"glob"}, d \in Deps : cfg[x].inh = "none" => L(cfg, x, d) = L([start EXCEPT ![x] = cfg[x]], x, d)
GlobalOnly == \A d \in Deps : cfg["proj"].inh = "global" => L(cfg, "proj", d) = L([cfg EXCEPT !["env"] = start["env"]], "proj", d)
\* an operation on a context is not seen by the contexts around it
Inward == [][ops' # ops => LET o == ops'[Len(ops')] IN \A x \in Ctx, d \in Deps : o.ctx \notin Elems(Chain(W, x)) => L(cfg', x, d) = L(cfg, x, d)]_<<cfg, ops>>
\* adding a repository never hides what was found in the repositories before it
Appended == [][ops' # ops => LET o == ops'[Len(ops')] IN
                 o.k = "add" /\ (\A r \in Elems(cfg[o.ctx].repos) : r.n # o.n) =>
                   \A d \in Deps : (d.url = "" /\ \E r \in Elems(cfg[o.ctx].repos) : ~r.b /\ Match(W, r.c, d).src # 0) => L(cfg', o.ctx, d) = L(cfg, o.ctx, d)]_<<cfg, ops>>
Export == Len(ops) # Depth \/ PrintT(<<"ST", ToJson([W |-> W, cfg |-> start, ops |-> ops])>>)
===============================================================================
