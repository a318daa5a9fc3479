-------------------------------- MODULE Index ---------------------------------
(* What package indexes offer, and what is taken from them.                  *)
(* repos: Seq of [kind: "pypi" | "simple" | "files", up: BOOLEAN, files: Seq *)
(* of file]; repositories are asked in order, the first that has an answer   *)
(* answers.                                                                  *)
(* file: [id, p, v: index into VT, kind: "whl" | "sdist" | "junk", fit: how  *)
(* well the wheel suits the environment (0: not at all), py: does it admit   *)
(* the interpreter ("yes" | "no" | "odd": not said in a readable way),       *)
(* yank: BOOLEAN, dig: "good" | "bad" (of another content) | "none",         *)
(* meta: BOOLEAN (the index itself tells the dependencies of the release)]   *)
(* spec: Seq of [op, v]                                                      *)
EXTENDS Naturals, Sequences, FiniteSets
Elems(s) == { s[i] : i \in 1..Len(s) }
\* 1.0a1 1.0 1.0.1 1.1.dev1 1.1 1.10 2.0rc1 2.0 1!0.5 (r: release, g: for prefixes)
VT == << [r |-> 1, g |-> 1, pre |-> TRUE], [r |-> 1, g |-> 1, pre |-> FALSE], [r |-> 2, g |-> 1, pre |-> FALSE],
         [r |-> 3, g |-> 1, pre |-> TRUE], [r |-> 3, g |-> 1, pre |-> FALSE], [r |-> 4, g |-> 1, pre |-> FALSE],
         [r |-> 5, g |-> 2, pre |-> TRUE], [r |-> 5, g |-> 2, pre |-> FALSE], [r |-> 6, g |-> 3, pre |-> FALSE] >>
Admits1(c, v) ==
    CASE c.op = "==" -> v = c.v
      [] c.op = "!=" -> v # c.v
      [] c.op = ">=" -> v >= c.v
      [] c.op = "<=" -> v <= c.v
      [] c.op = ">" -> v > c.v
      [] c.op = "<" -> v < c.v /\ ~(VT[v].pre /\ VT[v].r = VT[c.v].r /\ ~VT[c.v].pre)
      [] c.op = "==.*" -> VT[v].g = c.v
      [] OTHER -> TRUE
Admits(spec, v) == \A c \in Elems(spec) : Admits1(c, v)
Mentions(spec) == \E c \in Elems(spec) : c.op \in {"==", ">=", "<="} /\ VT[c.v].pre
Pinned(spec) == \E c \in Elems(spec) : c.op = "=="
\* files that have to be counted, and those that may be
Fits(f) == f.kind = "sdist" \/ (f.kind = "whl" /\ f.fit > 0)
Must(repo, f, spec) == Fits(f) /\ ~f.yank /\ f.py = "yes"
May(repo, f, spec) == Fits(f) /\ (f.py # "no" \/ repo.kind = "files") /\ (~f.yank \/ Pinned(spec))
MustF(repo, p, spec) == { f \in Elems(repo.files) : f.p = p /\ Admits(spec, f.v) /\ Must(repo, f, spec) }
MayF(repo, p, spec) == { f \in Elems(repo.files) : f.p = p /\ Admits(spec, f.v) /\ May(repo, f, spec) }
Final(vs, spec) == LET fin == { v \in vs : ~VT[v].pre } IN IF Mentions(spec) \/ fin = {} THEN vs ELSE fin
Offers(repo, p, spec) ==
    LET must == { f.v : f \in MustF(repo, p, spec) }
        may == { f.v : f \in MayF(repo, p, spec) }
    IN { Final(must \cup x, spec) : x \in SUBSET (may \ must) }
RECURSIVE Answers(_, _, _, _)
Answers(repos, i, p, spec) ==
    IF i > Len(repos) THEN {[src |-> 0, vs |-> {}, down |-> FALSE]}
    ELSE IF ~repos[i].up THEN {[src |-> i, vs |-> {}, down |-> TRUE]}
    ELSE LET os == Offers(repos[i], p, spec)
         IN { [src |-> i, vs |-> s, down |-> FALSE] : s \in os \ {{}} } \cup (IF {} \in os THEN Answers(repos, i + 1, p, spec) ELSE {})
\* o: [p, spec, got: Seq of versions, newest first, err]
Asked(repos, o) ==
    LET as == Answers(repos, 1, o.p, o.spec)
        up == { a \in as : ~a.down }
        got == Elems(o.got)
        sure == { a \in up : a.vs = got }
    IN IF o.err # "" THEN IF up # as THEN "ok" ELSE "asking-fails-with-" \o o.err
       ELSE IF up = {} THEN "unreachable-index-taken-for-empty"
       ELSE IF o.others THEN "another-package-offered"
       ELSE IF sure = {} THEN
            IF \E v \in got : \A a \in up : v \notin a.vs THEN "offers-what-cannot-be-used"
            ELSE IF \E a \in up : got \subseteq a.vs THEN "what-can-be-used-is-not-offered" ELSE "offers-of-several-repositories"
       ELSE IF \E i, j \in 1..Len(o.got) : i < j /\ o.got[i] < o.got[j] THEN "not-newest-first"
       ELSE IF Len(o.got) # Cardinality(got) /\ \A a \in sure : a.src = 0 \/ repos[a.src].kind # "files" THEN "version-offered-twice"
       ELSE "ok"
\* the files that may be taken for a version
Taken(repo, p, v) ==
    LET spec == <<[op |-> "==", v |-> v]>>
        may == MayF(repo, p, spec)
        must == MustF(repo, p, spec)
        wheels == { f \in may : f.kind = "whl" }
    IN IF repo.kind = "files" THEN wheels
       ELSE { f \in wheels : /\ ~\E g \in must : g.kind = "whl" /\ g.fit > f.fit
                             /\ f.yank => must = {} }
Built(repo, p, v) ==   \* is a source distribution possibly taken?
    LET spec == <<[op |-> "==", v |-> v]>> IN
    /\ \E f \in MayF(repo, p, spec) : f.kind = "sdist"
    /\ repo.kind = "files" \/ ~\E f \in MustF(repo, p, spec) : f.kind = "whl"
\* o: [p, v, how: "install" | "deps", found: BOOLEAN, content (id of the file, 1000 + v: what the index tells), err]
Allowed(repos, o, a) ==
    IF a.down THEN o.err # ""
    ELSE IF a.vs = {} THEN ~o.found /\ o.err = ""
    ELSE LET r == repos[a.src]
             c == Taken(r, o.p, o.v)
         IN \/ Built(r, o.p, o.v)
            \/ o.found /\ IF o.how = "deps" /\ r.kind = "pypi" /\ \E f \in Elems(r.files) : f.p = o.p /\ f.v = o.v /\ f.meta
                          THEN o.err = "" /\ o.content = 1000 + o.v
                          ELSE IF o.err # "" THEN \E f \in c : f.dig = "bad" ELSE \E f \in c : f.dig # "bad" /\ f.id = o.content
Got(repos, o) ==
    LET as == Answers(repos, 1, o.p, <<[op |-> "==", v |-> o.v]>>)
        fs == UNION { Elems(repos[i].files) : i \in 1..Len(repos) }
    IN IF \E a \in as : Allowed(repos, o, a) THEN "ok"
       ELSE IF o.err # "" THEN o.how \o "-fails-with-" \o o.err
       ELSE IF ~o.found THEN "not-found"
       ELSE IF \E f \in fs : f.dig = "bad" /\ o.content = 500 + f.id THEN "content-of-a-wrong-digest-used"
       ELSE IF \E f \in fs : f.id = o.content THEN "another-file-used" ELSE "unknown-content-used"
\* the index changes
OnFile(repos, r, id, F(_)) == [repos EXCEPT ![r].files = [i \in 1..Len(@) |-> IF @[i].id = id THEN F(@[i]) ELSE @[i]]]
After(repos, o) ==
    CASE o.k = "publish" -> [repos EXCEPT ![o.r].files = Append(@, o.f)]
      [] o.k = "yank" -> OnFile(repos, o.r, o.id, LAMBDA f : [f EXCEPT !.yank = ~@])
      [] o.k = "drop" -> [repos EXCEPT ![o.r].files = SelectSeq(@, LAMBDA f : f.id # o.id)]
      [] o.k = "forget" -> [repos EXCEPT ![o.r].files = SelectSeq(@, LAMBDA f : f.p # o.p)]
      [] o.k = "mend" -> OnFile(repos, o.r, o.id, LAMBDA f : [f EXCEPT !.dig = "good"])
      [] o.k = "replace" -> OnFile(repos, o.r, o.id, LAMBDA f : [f EXCEPT !.id = o.new, !.dig = "good"])
      [] o.k = "up" -> [repos EXCEPT ![o.r].up = ~@]
      [] OTHER -> repos
RECURSIVE Walk(_, _, _)
Walk(t, i, repos) ==
    IF i > Len(t.ops) THEN "ok"
    ELSE LET o == t.ops[i]
             v == CASE o.k = "ask" -> Asked(repos, o)
                    [] o.k = "get" -> Got(repos, o)
                    [] OTHER -> "ok"
         IN IF v # "ok" THEN v ELSE Walk(t, i + 1, After(repos, o))
IndexVerdict(t) == Walk(t, 1, t.repos)
===============================================================================
