------------------------------- MODULE IndexMC --------------------------------
(* laws of what indexes offer, on every listing that is reached by a few     *)
(* changes of two repositories; the histories are exported for replaying     *)
EXTENDS Index, TLC, Json, IOUtils
Depth == atoi(IOEnv.DEPTH)
F == [id |-> 0, p |-> 1, v |-> 2, kind |-> "whl", fit |-> 1, py |-> "yes", yank |-> FALSE, dig |-> "good", meta |-> FALSE]
Pool == { [F EXCEPT !.v = v, !.kind = k[1], !.fit = k[2], !.py = k[3], !.dig = k[4]] :
            v \in {2, 7, 8}, k \in { <<"whl", 1, "yes", "good">>, <<"whl", 2, "yes", "bad">>, <<"whl", 0, "yes", "none">>, <<"whl", 3, "no", "good">>, <<"sdist", 0, "yes", "good">> } }
Specs == { <<>>, <<[op |-> "==", v |-> 2]>>, <<[op |-> ">=", v |-> 2]>>, <<[op |-> ">=", v |-> 7]>>, <<[op |-> "<", v |-> 9]>>, <<[op |-> ">", v |-> 2], [op |-> "!=", v |-> 8]>> }
Kinds == { <<"pypi", "simple">>, <<"simple", "files">>, <<"files", "pypi">>, <<"simple", "pypi">> }
No == [k |-> "", r |-> 1, f |-> F, id |-> 0, new |-> 0, p |-> 1]
VARIABLES repos, ops, start, n
Init == /\ \E ks \in Kinds : repos = [i \in 1..2 |-> [kind |-> ks[i], up |-> TRUE, files |-> <<>>]]
        /\ start = repos /\ ops = <<>> /\ n = 1
Ids(r) == { f.id : f \in Elems(repos[r].files) }
Do(o) == repos' = After(repos, o) /\ ops' = Append(ops, o) /\ n' = n + 1 /\ UNCHANGED start
Web(r) == repos[r].kind # "files"
Next == /\ Len(ops) < Depth
        /\ \E r \in 1..2 :
            \/ \E f \in Pool : /\ (Web(r) \/ (f.dig # "bad" /\ f.py = "yes"))
                               /\ Do([No EXCEPT !.k = "publish", !.r = r, !.f = [f EXCEPT !.id = n]])
            \/ \E id \in Ids(r), k \in {"yank", "drop", "mend", "replace"} :
                  /\ (k = "drop" \/ Web(r))
                  /\ (k = "mend" => \E f \in Elems(repos[r].files) : f.id = id /\ f.dig = "bad")
                  /\ (k = "replace" => \E f \in Elems(repos[r].files) : f.id = id /\ f.dig # "none")
                  /\ Do([No EXCEPT !.k = k, !.r = r, !.id = id, !.new = n])
            \/ Web(r) /\ Do([No EXCEPT !.k = "up", !.r = r])
            \/ Ids(r) # {} /\ Do([No EXCEPT !.k = "forget", !.r = r])
Spec == Init /\ [][Next]_<<repos, ops, start, n>>
A(rs, s) == Answers(rs, 1, 1, s)
\* there is an answer to every question, from one repository, of versions that are admitted
Total == \A s \in Specs : A(repos, s) # {} /\ \A a \in A(repos, s) : \A v \in a.vs : Admits(s, v) /\ \E f \in Elems(repos[a.src].files) : f.v = v /\ Fits(f)
\* pre-releases are mentioned or alone
Finals == \A s \in Specs : \A a \in A(repos, s) : (\E v \in a.vs : VT[v].pre) => Mentions(s) \/ \A v \in a.vs : VT[v].pre
\* nothing is in doubt unless yanked files are asked for by their version, or files are odd
Certain == \A s \in Specs : (~Pinned(s) /\ \A r \in 1..2 : repos[r].kind # "files") => Cardinality(A(repos, s)) = 1
\* a more demanding requirement is offered no version that a weaker one would not accept
Stricter == \A a \in A(repos, <<[op |-> ">=", v |-> 2]>>) : \A v \in a.vs : v >= 2
\* the content that is used is that of a file whose digest is right
Right == \A r \in 1..2, v \in {2, 7, 8} : \A f \in Taken(repos[r], 1, v) : f.v = v /\ f.fit > 0 /\ (Web(r) => f.py # "no")
\* changes of one repository do not change what the others say
Local == [][ops' # ops => LET o == ops'[Len(ops')] IN \A i \in 1..2 : i # o.r => repos'[i] = repos[i]]_<<repos, ops>>
\* yanking a file only takes away
Yanked == [][ops' # ops => LET o == ops'[Len(ops')] IN
               o.k = "yank" => \A s \in Specs : LET more == IF \E f \in Elems(repos[o.r].files) : f.id = o.id /\ f.yank THEN repos' ELSE repos
                                                    less == IF more = repos THEN repos' ELSE repos
                                                IN MustF(less[o.r], 1, s) \subseteq MustF(more[o.r], 1, s)]_<<repos, ops>>
Export == Len(ops) # Depth \/ PrintT(<<"ST", ToJson([repos |-> start, ops |-> ops])>>)
===============================================================================
