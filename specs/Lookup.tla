-------------------------------- MODULE Lookup --------------------------------
(* Which packages a context (a project, its group, an environment, a zoo, or *)
(* pkm itself: "glob") finds, given the repositories that are configured.    *)
(* W: content (Seq of Seq of [p, v]: the packages of each repository that can *)
(*    be defined; an index above Len(content) is a definition that can only   *)
(*    be published to), group, zoo (BOOLEAN: which contexts exist)            *)
(* cfg[ctx]: repos (Seq of [n: name, c: content, b: bind only]),              *)
(*    inh ("context" | "global" | "none"), binds (Seq of [p: package,         *)
(*    n: name or "" , c: content when there is no name])                      *)
(* Versions are numbers, even ones are pre-releases. Package 3 is the project *)
(* itself and 4 its sibling in the group: their sources are 100 and 101.      *)
(* dep: [p, v (0: any), url ("" | "file" | "odd")]                            *)
EXTENDS Naturals, Sequences, FiniteSets
Elems(s) == { s[i] : i \in 1..Len(s) }
Chain(W, ctx) ==
    LET g == IF W.group THEN <<"group">> ELSE <<>>
        z == IF W.zoo THEN <<"zoo">> ELSE <<>>
    IN CASE ctx = "proj" -> <<"proj">> \o g \o <<"env">> \o z \o <<"glob">>
         [] ctx = "group" -> <<"group", "glob">>
         [] ctx = "env" -> <<"env">> \o z \o <<"glob">>
         [] ctx = "zoo" -> <<"zoo", "glob">>
         [] OTHER -> <<"glob">>
Nothing == [src |-> 0, vs |-> {}]
Match(W, c, dep) ==
    LET all == { x.v : x \in { y \in Elems(W.content[c]) : y.p = dep.p /\ (dep.v = 0 \/ y.v = dep.v) } }
        stable == { v \in all : v % 2 = 1 }
        vs == IF dep.v = 0 /\ stable # {} THEN stable ELSE all
    IN IF vs = {} THEN Nothing ELSE [src |-> c, vs |-> vs]
FirstIndex(s, P(_)) == IF \E i \in 1..Len(s) : P(s[i]) THEN CHOOSE i \in 1..Len(s) : P(s[i]) /\ \A j \in 1..i-1 : ~P(s[j]) ELSE 0
\* projects come from their own sources, whatever repositories say
OwnProject(W, ctx, dep) ==
    IF dep.url # "" THEN 0
    ELSE IF dep.p = 3 /\ (ctx = "proj" \/ ctx = "group") THEN 100
    ELSE IF dep.p = 4 /\ ctx = "group" THEN 101 ELSE 0
RECURSIVE Resolve(_, _, _, _, _)
Resolve(W, cfg, chain, i, dep) ==
    IF i > Len(chain) THEN IF dep.url = "file" THEN [src |-> 200, vs |-> {dep.v}] ELSE Nothing
    ELSE LET x == chain[i]
             c == cfg[x]
             own == OwnProject(W, x, dep)
             b == FirstIndex(c.binds, LAMBDA y : y.p = dep.p)
             named == FirstIndex(c.repos, LAMBDA y : y.n = c.binds[b].n)
             r == FirstIndex(c.repos, LAMBDA y : ~y.b /\ Match(W, y.c, dep).src # 0)
             inherited == CASE c.inh = "none" -> Nothing
                            [] c.inh = "global" /\ x # "glob" -> Resolve(W, cfg, <<"glob">>, 1, dep)
                            [] OTHER -> Resolve(W, cfg, chain, i + 1, dep)
         IN IF own # 0 THEN [src |-> own, vs |-> {1}]
            ELSE IF dep.url # "" THEN inherited
            ELSE IF b # 0 /\ c.binds[b].n # "" THEN IF named = 0 THEN [src |-> 0, vs |-> {0}] ELSE Match(W, c.repos[named].c, dep)
            ELSE IF b # 0 THEN Match(W, c.binds[b].c, dep)
            ELSE IF r # 0 THEN Match(W, c.repos[r].c, dep)
            ELSE inherited
Lookup(W, cfg, ctx, dep) == Resolve(W, cfg, Chain(W, ctx), 1, dep)
\* the repositories that can be used by name from a context: the nearest definition of each name
RECURSIVE Reach(_, _, _)
Reach(cfg, chain, i) ==
    IF i > Len(chain) THEN <<>>
    ELSE LET c == cfg[chain[i]] IN
         c.repos \o (CASE c.inh = "none" -> <<>>
                       [] c.inh = "global" /\ chain[i] # "glob" -> cfg["glob"].repos
                       [] OTHER -> Reach(cfg, chain, i + 1))
Reachable(W, cfg, ctx) ==
    LET all == Reach(cfg, Chain(W, ctx), 1)
    IN SelectSeq([i \in 1..Len(all) |-> [r |-> all[i], i |-> i]], LAMBDA x : \A j \in 1..x.i-1 : all[j].n # x.r.n)
\* operations
Replaced(s, y) == IF \E i \in 1..Len(s) : s[i].n = y.n THEN [i \in 1..Len(s) |-> IF s[i].n = y.n THEN y ELSE s[i]] ELSE Append(s, y)
After(W, cfg, o) ==
    CASE o.k = "add" -> [cfg EXCEPT ![o.ctx].repos = Replaced(@, [n |-> o.n, c |-> o.c, b |-> o.b])]
      [] o.k = "remove" -> [cfg EXCEPT ![o.ctx].repos = SelectSeq(@, LAMBDA y : y.n # o.n),
                                       ![o.ctx].binds = SelectSeq(@, LAMBDA y : y.n # o.n)]
      [] o.k = "bind" -> [cfg EXCEPT ![o.ctx].binds = SelectSeq(@, LAMBDA y : y.p # o.p) \o <<[p |-> o.p, n |-> o.n, c |-> o.c]>>]
      [] o.k = "unbind" -> [cfg EXCEPT ![o.ctx].binds = SelectSeq(@, LAMBDA y : y.p # o.p)]
      [] OTHER -> cfg    \* restart, and attempts to add what cannot be built ("bad")
\* o.got: per lookup [dep, err, pkgs: Seq of [p, v, src]]
Found(W, cfg, ctx, g) ==
    LET e == Lookup(W, cfg, ctx, g.dep)
        vs == { x.v : x \in Elems(g.pkgs) }
    IN IF e.vs = {0} THEN IF g.err # "" THEN "ok" ELSE "undefined-repository-ignored"
       ELSE IF g.err # "" THEN "lookup-fails-with-" \o g.err
       ELSE IF e.vs = {} THEN IF g.pkgs = <<>> THEN "ok" ELSE "found-what-should-not-be-found"
       ELSE IF g.pkgs = <<>> THEN "not-found"
       ELSE IF \E x \in Elems(g.pkgs) : x.src # e.src THEN "found-in-the-wrong-repository"
       ELSE IF \E x \in Elems(g.pkgs) : x.p # g.dep.p THEN "another-package-found"
       ELSE IF vs # e.vs \/ Len(g.pkgs) # Cardinality(vs) THEN "wrong-versions-found"
       ELSE IF \E i, j \in 1..Len(g.pkgs) : i < j /\ g.pkgs[i].v < g.pkgs[j].v THEN "versions-not-in-order"
       ELSE "ok"
\* o.all: Seq of [n, c]; o.pubs: Seq of [n, c]
Listed(W, cfg, o) ==
    LET r == Reachable(W, cfg, o.ctx)
        names == [i \in 1..Len(r) |-> [n |-> r[i].r.n, c |-> r[i].r.c]]
        pubs == { x \in Elems(names) : x.c > Len(W.content) }
    IN IF o.err # "" THEN "listing-fails-with-" \o o.err
       ELSE IF o.all # names THEN "wrong-repositories-listed"
       ELSE IF Elems(o.pubs) # pubs \/ Len(o.pubs) # Cardinality(pubs) THEN "wrong-publishers"
       ELSE "ok"
RECURSIVE FirstBad(_)
FirstBad(s) == IF s = <<>> THEN "ok" ELSE IF Head(s) # "ok" THEN Head(s) ELSE FirstBad(Tail(s))
RECURSIVE Walk(_, _, _)
Walk(t, i, cfg) ==
    IF i > Len(t.ops) THEN "ok"
    ELSE LET o == t.ops[i]
             v == CASE o.k = "look" -> FirstBad([j \in 1..Len(o.got) |-> Found(t.W, cfg, o.ctx, o.got[j])])
                    [] o.k = "list" -> Listed(t.W, cfg, o)
                    [] o.k = "bad" -> IF o.err # "" THEN "ok" ELSE "unknown-repository-type-accepted"
                    [] OTHER -> IF o.err = "" THEN "ok" ELSE o.k \o "-fails-with-" \o o.err
         IN IF v # "ok" THEN v ELSE Walk(t, i + 1, After(t.W, cfg, o))
LookupVerdict(t) == Walk(t, 1, t.cfg)
===============================================================================
